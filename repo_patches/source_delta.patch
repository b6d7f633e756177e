From a8664b89ba490142b03a5d76779ba3b7b5fd656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 001/111] fix: hold the robot mutex for the whole operation
 (the lock was an unnamed temporary)

---
 VirtualRobot/Robot.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..d76cb1a 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -418,7 +418,7 @@ namespace VirtualRobot
      */
     void Robot::applyJointValues()
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->getRootNode()->updatePose(this->getGlobalPose());
     }
 
@@ -667,7 +667,7 @@ namespace VirtualRobot
 
     void LocalRobot::setGlobalPose(const Eigen::Matrix4f& globalPose, bool applyJointValues /*= true*/)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->globalPose = globalPose;
 
         if (applyJointValues)
@@ -678,7 +678,7 @@ namespace VirtualRobot
 
     Eigen::Matrix4f LocalRobot::getGlobalPose() const
     {
-        ReadLock(mutex, use_mutex);
+        ReadLock lock(mutex, use_mutex);
         return globalPose;
     }
 
@@ -992,7 +992,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map< std::string, float >& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< std::string, float >::const_iterator it = jointValues.begin();
 
@@ -1014,7 +1014,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map<RobotNodePtr, float>& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< RobotNodePtr, float >::const_iterator it = jointValues.begin();
 
@@ -1064,7 +1064,7 @@ namespace VirtualRobot
     void Robot::setJointValues(const std::vector<RobotNodePtr> rn, const std::vector<float>& jointValues)
     {
         VR_ASSERT(rn.size() == jointValues.size());
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         for (size_t i = 0; i < rn.size(); i++)
         {
-- 
2.43.0


From d7db89997609ed130110db2976c0f3551c7cccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 002/111] fix: placing a robot by one of its nodes respects the
 orientation of the node and of the robot

---
 VirtualRobot/Robot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index d76cb1a..4beb1e7 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -831,7 +831,8 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode).isIdentity()
+                && math::Helpers::Orientation(node->getGlobalPose()).isIdentity())
         {
             // set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
@@ -867,7 +868,8 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        // the orientation of the robot is kept
+        return math::Helpers::Pose(robotPosition, math::Helpers::Orientation(getGlobalPose()));
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From fafc126169f89a55907606adce6f7dc325d71a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 003/111] fix: propagate joint values in every update, not only
 when a single joint is set

---
 VirtualRobot/Nodes/RobotNode.cpp | 18 ++++++++++++++++--
 VirtualRobot/Nodes/RobotNode.h   |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..78471ce 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -253,6 +253,11 @@ namespace VirtualRobot
         SceneObject::updatePose(updateChildren);
 
         // apply propagated joint values
+        updatePropagatedJointValues();
+    }
+
+    void RobotNode::updatePropagatedJointValues()
+    {
         if (propagatedJointValues.size() > 0)
         {
             RobotPtr r = robot.lock();
@@ -266,9 +271,15 @@ namespace VirtualRobot
                 {
                     VR_WARNING << "Could not propagate joint value from " << name << " to " << it->first << " because dependent joint does not exist...";
                 }
-                else
+                else if (rn->initialized)
                 {
-                    rn->setJointValue(jointValue * it->second);
+                    const float oldValue = rn->jointValue;
+                    rn->setJointValueNoUpdate(jointValue * it->second);
+
+                    if (rn->jointValue != oldValue)
+                    {
+                        rn->updatePose();
+                    }
                 }
 
                 it++;
@@ -310,6 +321,9 @@ namespace VirtualRobot
 
         // update collision and visualization model and children
         SceneObject::updatePose(updateChildren);
+
+        // apply propagated joint values
+        updatePropagatedJointValues();
     }
 
     void RobotNode::collectAllRobotNodes(std::vector< RobotNodePtr >& storeNodes)
diff --git a/VirtualRobot/Nodes/RobotNode.h b/VirtualRobot/Nodes/RobotNode.h
index 76403e8..909f0f9 100644
--- a/VirtualRobot/Nodes/RobotNode.h
+++ b/VirtualRobot/Nodes/RobotNode.h
@@ -396,6 +396,9 @@ namespace VirtualRobot
         std::map< std::string, float > propagatedJointValues;
         ///////////////////////// SETUP ////////////////////////////////////
 
+        //! Sets the joints that depend on this joint (see propagateJointValue).
+        void updatePropagatedJointValues();
+
         virtual void updateTransformationMatrices(const Eigen::Matrix4f& parentPose);
         RobotWeakPtr robot;
 
-- 
2.43.0


From a9be70329275c35848515ce4b3baa2a811219bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 004/111] fix: store kinematic root and tcp of robot node sets

---
 VirtualRobot/RobotNodeSet.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..86077aa 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -770,7 +770,19 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<RobotNodeSet name='" << name << "'>\n";
+        ss << pre << "<RobotNodeSet name='" << name << "'";
+
+        if (kinematicRoot)
+        {
+            ss << " kinematicRoot='" << kinematicRoot->getName() << "'";
+        }
+
+        if (tcp)
+        {
+            ss << " tcp='" << tcp->getName() << "'";
+        }
+
+        ss << ">\n";
 
         for (auto & robotNode : robotNodes)
         {
-- 
2.43.0


From d05be191a386f7d7bb9f50cedb8b71ab40f7dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 005/111] fix: default joint limits are given in the unit of
 the <Limits> tag, and the default of hi does not overwrite lo

---
 VirtualRobot/XML/RobotIO.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..1b90c3b 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -104,14 +104,13 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -1000 [mm]." << endl;
-                jointLimitLo = -1000.0f;
-                unit = Units("mm");
+                jointLimitLo = unit.isMeter() ? -1.0f : -1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -180 [deg]." << endl;
-                jointLimitLo = float(-M_PI);
-                unit = Units("rad");
+                jointLimitLo = unit.isDegree() ? -180.0f : float(-M_PI);
+                unit = unit.isDegree() ? unit : Units("rad");
             }
         }
 
@@ -124,14 +123,13 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 1000 [mm]." << endl;
-                jointLimitLo = 1000.0f;
-                unit = Units("mm");
+                jointLimitHi = unit.isMeter() ? 1.0f : 1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 180 [deg]." << endl;
-                jointLimitHi = float(M_PI);
-                unit = Units("rad");
+                jointLimitHi = unit.isDegree() ? 180.0f : float(M_PI);
+                unit = unit.isDegree() ? unit : Units("rad");
             }
         }
 
-- 
2.43.0


From 48fe9b9f1382cab03263a6e9ce14139bf892a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 006/111] fix: a maximum torque given in Nmm is a thousandth of
 one given in Nm

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 1b90c3b..35ea65d 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -446,7 +446,7 @@ namespace VirtualRobot
 
                 if (uLength.isMillimeter())
                 {
-                    factor *= 1000.0f;
+                    factor *= 0.001f;
                 }
 
                 maxTorque *= factor;
-- 
2.43.0


From 03f5d04160fc10c1ae3fa0583daab50f24a8665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 007/111] fix: cloned robot nodes keep the setting of
 enforceJointLimits

---
 VirtualRobot/Nodes/RobotNode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 78471ce..6f93f85 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -577,6 +577,7 @@ namespace VirtualRobot
         result->setMaxAcceleration(maxAcceleration);
         result->setMaxTorque(maxTorque);
         result->setLimitless(limitless);
+        result->enforceJointLimits = enforceJointLimits;
 
         std::map< std::string, float>::iterator it = propagatedJointValues.begin();
 
-- 
2.43.0


From 72bc2b395f30db02db51cab92fdfb385357849ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 008/111] fix: the shortest way to a target of a limitless
 joint is at most half a turn

---
 VirtualRobot/Nodes/RobotNode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 6f93f85..626a039 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -652,6 +652,11 @@ namespace VirtualRobot
         delta = target - jointValue;
 
         // eventually take the other way around if it is shorter and if this joint is limitless.
+        if (limitless && (std::abs(delta) > M_PI))
+        {
+            delta = std::fmod(delta, float(2 * M_PI));
+        }
+
         if (limitless && (std::abs(delta) > M_PI))
         {
             delta = (-1) * ((delta > 0) - (delta < 0)) * ((2 * M_PI) - std::abs(delta));
-- 
2.43.0


From d101023b37d20f066a936fa9b06549e15c6a06f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 009/111] fix: queries on empty robot node sets do not read
 behind the end

---
 VirtualRobot/RobotNodeSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 86077aa..37554ec 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -501,7 +501,7 @@ namespace VirtualRobot
 
     bool RobotNodeSet::isKinematicChain()
     {
-        for (unsigned int i = 0; i < this->robotNodes.size() - 1; i++)
+        for (unsigned int i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             if (!this->robotNodes[i]->hasChild(this->robotNodes[i + 1], true))
             {
@@ -560,7 +560,7 @@ namespace VirtualRobot
             result += v.norm();
         }
 
-        for (size_t i = 0; i < this->robotNodes.size() - 1; i++)
+        for (size_t i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             t = robotNodes[i]->getTransformationTo(robotNodes[i + 1]);
             v = MathTools::getTranslation(t);
-- 
2.43.0


From 788157a9dc86520721d3924dcb1dc471bc741ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 010/111] fix: an object cannot be attached to one of its own
 descendants

---
 VirtualRobot/SceneObject.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..692935d 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1152,6 +1152,12 @@ namespace VirtualRobot
             return false;
         }
 
+        if (child->hasChild(shared_from_this(), true))
+        {
+            VR_ERROR << " Trying to attach object with name: " << child->getName() << " to its own descendant " << getName() << endl;
+            return false;
+        }
+
         if (hasChild(child->getName()))
         {
             VR_ERROR << " Trying to attach object with name: " << child->getName() << " to " << getName() << ", but a child with same name is already present!" << endl;
-- 
2.43.0


From 4c1935d70bc648865777d47ea10bccb6797d9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 011/111] fix: limitless joints map values below the interval
 to an equivalent angle

---
 VirtualRobot/Nodes/RobotNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 626a039..a6d4615 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -187,7 +187,7 @@ namespace VirtualRobot
                 q = fmod(q, 2.0f * M_PI);
             while (q > jointLimitHi) q -= 2.0f * M_PI;
             if(q < jointLimitLo)
-                q = -fmod(fabs(q), 2.0f * M_PI);
+                q = fmod(q, 2.0f * M_PI);
             while (q < jointLimitLo) q += 2.0f * M_PI;
         }
         else
-- 
2.43.0


From d267c1da080d0d7f19dbc7e20a487c7fa9d66d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 012/111] fix: automatic CoM and inertia do not depend on a
 stale pose of the model

---
 VirtualRobot/SceneObject.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 692935d..b586735 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -699,18 +699,16 @@ namespace VirtualRobot
             if (visualizationModel || collisionModel)
             {
                 TriMeshModelPtr tm;
-                // since globalPose and visualization's global pose may differ, we transform com to local coord system (globalpose)
-                Eigen::Matrix4f posVisu;
+                // the models belong at the global pose of this object, even when their update is currently disabled
+                Eigen::Matrix4f posVisu = getGlobalPose();
 
                 if (collisionModel)
                 {
                     tm = collisionModel->getTriMeshModel();
-                    posVisu = collisionModel->getGlobalPose();
                 }
                 else
                 {
                     tm = visualizationModel->getTriMeshModel();
-                    posVisu = visualizationModel->getGlobalPose();
                 }
 
                 if (!tm)
@@ -747,18 +745,16 @@ namespace VirtualRobot
             else
             {
                 TriMeshModelPtr tm;
-                // since globalPose and visualization's global pose may differ, we transform com to local coord system (globalpose)
-                Eigen::Matrix4f posVisu;
+                // the models belong at the global pose of this object, even when their update is currently disabled
+                Eigen::Matrix4f posVisu = getGlobalPose();
 
                 if (collisionModel)
                 {
                     tm = collisionModel->getTriMeshModel();
-                    posVisu = collisionModel->getGlobalPose();
                 }
                 else if (visualizationModel)
                 {
                     tm = visualizationModel->getTriMeshModel();
-                    posVisu = visualizationModel->getGlobalPose();
                 }
 
                 if (!tm)
-- 
2.43.0


From 87e40e69fb5a958bd2da5630f2240a97c5cae01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 013/111] fix: storing a joint keeps its offset and whether it
 is limitless

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 4 ++--
 VirtualRobot/Nodes/RobotNodeRevolute.cpp  | 4 ++--
 VirtualRobot/XML/RobotIO.cpp              | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..9197bf6 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -261,9 +261,9 @@ namespace VirtualRobot
     std::string RobotNodePrismatic::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='prismatic'>" << endl;
+        ss << "\t\t<Joint type='prismatic' offset='" << jointValueOffset << "'>" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index 4547b84..d2e3a16 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -215,9 +215,9 @@ namespace VirtualRobot
     std::string RobotNodeRevolute::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='revolute'>" << endl;
+        ss << "\t\t<Joint type='revolute' offset='" << jointValueOffset << "'>" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 35ea65d..b134786 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -153,7 +153,7 @@ namespace VirtualRobot
         if (llAttr != nullptr)
         {
             limitless = isTrue(llAttr->value());
-            if (limitless && unit.isAngle() && (unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) != 360))
+            if (limitless && unit.isAngle() && (fabs(unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) - 360.0f) > 0.01f))
             {
                 VR_WARNING << "Limitless Joint: Angular distance between 'lo' and 'hi' attributes should equal 2*pi [rad] or 360 [deg]." << endl
                            << "Setting 'lo' to -pi and 'hi' to pi [rad]..." << endl;
-- 
2.43.0


From 3591adbb7511493288244cc84a7e83c72978d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 014/111] fix: storing physics data keeps friction and ignored
 collisions

---
 VirtualRobot/SceneObject.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index b586735..2b37071 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1380,7 +1380,7 @@ namespace VirtualRobot
 
     bool SceneObject::Physics::isSet()
     {
-        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0);
+        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0 || friction >= 0.0f);
     }
 
     std::string SceneObject::Physics::toXML(int tabs)
@@ -1418,7 +1418,12 @@ namespace VirtualRobot
 
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
-            ss << ta << "\t<IgnoreCollisions name='" << ignoreCollisions[i] << "'/>\n";
+            ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
+        }
+
+        if (friction >= 0.0f)
+        {
+            ss << ta << "\t<Friction value='" << friction << "'/>\n";
         }
 
         ss << ta << "</Physics>\n";
-- 
2.43.0


From de2297bc234785f2a87d3e83650baf58b11e94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 015/111] fix: joint values of a configuration given in m are
 converted to mm

---
 VirtualRobot/XML/BaseIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index a15989e..e215414 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1538,7 +1538,7 @@ namespace VirtualRobot
                 }
                 else if (u.isMeter())
                 {
-                    c.value = c.value / 1000.0f;
+                    c.value = c.value * 1000.0f;
                 }
 
                 storeConfigDefinitions.push_back(c);
-- 
2.43.0


From e80927d5f53e1123b5af4bc2b20223d8abcd593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 016/111] fix: importEEF='false' of <ChildFromRobot> files is
 respected

---
 VirtualRobot/XML/RobotIO.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index b134786..0c1aa92 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -852,9 +852,12 @@ namespace VirtualRobot
                 std::vector<EndEffectorPtr> eefs;
                 r->getEndEffectors(eefs);
 
-                for (auto & eef : eefs)
+                if (i.importEEF)
                 {
-                    eef->clone(robo);
+                    for (auto & eef : eefs)
+                    {
+                        eef->clone(robo);
+                    }
                 }
 
                 std::vector<RobotNodeSetPtr> nodeSets;
-- 
2.43.0


From bda89717c82184b65e63ad5b2735e705a223e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 017/111] fix: a stored collision model has one source, file or
 primitives

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..fcb119a 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -310,7 +310,7 @@ namespace VirtualRobot
                << "</File>\n";
         }
 
-        if (visualization && visualization->primitives.size() != 0)
+        else if (visualization && visualization->primitives.size() != 0)
         {
             ss << pre << "\t<Primitives>\n";
             std::vector<Primitive::PrimitivePtr>::const_iterator it;
-- 
2.43.0


From 8ede0843a15e5b4a4afa4b28807f1e44dbd55e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 018/111] fix: initial joint values of robots included with
 <ChildFromRobot> are kept

---
 VirtualRobot/XML/RobotIO.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 0c1aa92..8949ae1 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -849,6 +849,14 @@ namespace VirtualRobot
                 RobotNodePtr rootNew = root->clone(robo, true, node);
                 THROW_VR_EXCEPTION_IF(!rootNew, "Clone failed. Could not add child-from-robot from file " << i.filename);
 
+                // cloned nodes start at zero, take over the initial values of the included robot
+                for (auto & n : r->getRobotNodes())
+                {
+                    robo->getRobotNode(n->getName())->setJointValueNoUpdate(n->getJointValue());
+                }
+
+                rootNew->updatePose(true);
+
                 std::vector<EndEffectorPtr> eefs;
                 r->getEndEffectors(eefs);
 
-- 
2.43.0


From 31723a96c6cc7e23bf169868b730042153bf8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 019/111] fix: sensors of reversed nodes keep their place when
 the structure of a robot is changed

---
 VirtualRobot/RobotFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 00c2270..2a5b0da 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -466,6 +466,7 @@ namespace VirtualRobot
                         {
                             // cloning sensor
                             SensorPtr newSensor = cs->clone(parent);
+                            newSensor->setRobotNodeToSensorTransformation(tr * cs->getRobotNodeToSensorTransformation());
                             sensorMap[parent].push_back(newSensor);
                         }
 
-- 
2.43.0


From 35ae09f8fb68f8dd723f20427c8343f4dd2c4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 020/111] fix: the transformation to the next joint of a
 reduced robot is relative to its predecessor

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 2a5b0da..c08009c 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -671,7 +671,7 @@ namespace VirtualRobot
         {
             Eigen::Matrix4f startPose = nodeA->getGlobalPose();
             Eigen::Matrix4f goalPose = nodeB->getParent()->getGlobalPose();
-            storeTrafo = goalPose * startPose.inverse();
+            storeTrafo = startPose.inverse() * goalPose;
         }
 
         RobotNodePtr res = createUnitedRobotNode(robot, childNodes, nodeA, nodeAClone, Eigen::Matrix4f::Identity(), childSensorNodes);
-- 
2.43.0


From c82b3b0d41e51742f9265369b707a4fab4ea194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 021/111] fix: a reduced robot keeps the sensors of joints
 without other children

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index c08009c..f780fec 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -660,7 +660,7 @@ namespace VirtualRobot
         getChildNodes(nodeA, nodeB, childNodes);
         getChildSensorNodes(nodeA, nodeB, childSensorNodes);
 
-        if (childNodes.size() == 0)
+        if (childNodes.size() == 0 && childSensorNodes.size() == 0)
         {
             return RobotNodePtr();
         }
-- 
2.43.0


From aaf412e72ab967d6ee80f50bb00751ae33919542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 022/111] fix: reducing a robot does not apply its global pose
 twice

---
 VirtualRobot/RobotFactory.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index f780fec..6c9ff5c 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -716,6 +716,8 @@ namespace VirtualRobot
         std::vector < VisualizationNodePtr > visus;
         std::vector < VisualizationNodePtr > colVisus;
         float kg = 0;
+        // without parent the nodes are united in the frame of their robot
+        const Eigen::Matrix4f basePose = parent ? parent->getGlobalPose() : nodes[0]->getRobot()->getGlobalPose();
 
 
         for (const auto & node : nodes)
@@ -736,21 +738,15 @@ namespace VirtualRobot
         if (visus.size() > 0)
         {
             v = vf->createUnitedVisualization(visus)->clone();
-            if (parent)
-            {
-                Eigen::Matrix4f invTr = parent->getGlobalPose().inverse();
-                vf->applyDisplacement(v, invTr);
-            }
+            Eigen::Matrix4f invTr = basePose.inverse();
+            vf->applyDisplacement(v, invTr);
         }
 
         if (colVisus.size() > 0)
         {
             VisualizationNodePtr colVisu = vf->createUnitedVisualization(colVisus)->clone();
-            if (parent)
-            {
-                Eigen::Matrix4f invTr = parent->getGlobalPose().inverse();
-                vf->applyDisplacement(colVisu, invTr);
-            }
+            Eigen::Matrix4f invTr = basePose.inverse();
+            vf->applyDisplacement(colVisu, invTr);
             c.reset(new CollisionModel(colVisu, nodes[0]->getName()));
         }
 
@@ -764,7 +760,7 @@ namespace VirtualRobot
         for (const auto & sensor : sensors)
         {
             SensorPtr s = sensor->clone(newRN);
-            Eigen::Matrix4f trafoToNewRN = parent?parent->getGlobalPose() * trafo:trafo;
+            Eigen::Matrix4f trafoToNewRN = basePose * trafo;
             Eigen::Matrix4f t = trafoToNewRN.inverse() * sensor->getGlobalPose();
             s->setRobotNodeToSensorTransformation(t);
         }
@@ -836,7 +832,7 @@ namespace VirtualRobot
 
         if (startNode->getParent())
         {
-            currentTrafo = startNode->getParent()->getGlobalPose();
+            currentTrafo = robot->getGlobalPose().inverse() * startNode->getParent()->getGlobalPose();
         }
 
         // collect sensor nodes
-- 
2.43.0


From 4f9993a43d011934c8fd0e07c9f915d0f8a1944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 023/111] fix: united robot nodes keep the center of mass

---
 VirtualRobot/RobotFactory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 6c9ff5c..9af95ae 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -716,6 +716,7 @@ namespace VirtualRobot
         std::vector < VisualizationNodePtr > visus;
         std::vector < VisualizationNodePtr > colVisus;
         float kg = 0;
+        Eigen::Vector3f com = Eigen::Vector3f::Zero();
         // without parent the nodes are united in the frame of their robot
         const Eigen::Matrix4f basePose = parent ? parent->getGlobalPose() : nodes[0]->getRobot()->getGlobalPose();
 
@@ -733,6 +734,7 @@ namespace VirtualRobot
             }
 
             kg += node->getMass();
+            com += node->getMass() * node->getCoMGlobal();
         }
 
         if (visus.size() > 0)
@@ -752,6 +754,13 @@ namespace VirtualRobot
 
         p.massKg = kg;
 
+        if (kg > 0)
+        {
+            // the center of mass of the united nodes
+            p.comLocation = SceneObject::Physics::eCustom;
+            p.localCoM = ((basePose * trafo).inverse() * (com / kg).homogeneous()).head(3);
+        }
+
         RobotNodePtr newRN = rnf->createRobotNode(robot, name, v, c, 0, 0, 0, trafo, Eigen::Vector3f::Zero(), Eigen::Vector3f::Zero(), p);
 
         newRN->initialize(parentClone);
-- 
2.43.0


From 30343f30d5b5c2ecc136cdd033c394f61db87c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 024/111] fix: uniting robot nodes drops node sets whose tcp or
 kinematic root is united

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 9af95ae..a227695 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -926,7 +926,7 @@ namespace VirtualRobot
                 {
                     if (k == rn)
                         continue;
-                    if (rns->hasRobotNode(k->getName()))
+                    if (rns->hasRobotNode(k->getName()) || rns->getTCP() == k || rns->getKinematicRoot() == k)
                     {
                         ok = false;
                         break;
-- 
2.43.0


From f4fb5028948e700a907782fdc9096c5d51da6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 025/111] fix: the body of a single remaining joint is not
 united with the root, too

---
 VirtualRobot/RobotFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index a227695..f52c71a 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -829,8 +829,8 @@ namespace VirtualRobot
             }
             if (isFixed && std::find(initialNodes.begin(), initialNodes.end(),rn) == initialNodes.end())
             {
-                // check if rn is child of the nodes in the rns
-                if (!startNode->hasChild(rn, true))
+                // check if rn is the start node or a child of the nodes in the rns
+                if (rn != startNode && !startNode->hasChild(rn, true))
                     initialNodes.push_back(rn);
             }
         }
-- 
2.43.0


From b9a0627fabc2b76df677c64edcafb534ddf8f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 026/111] fix: RobotFactory::attach clones the collision model,
 so the original object keeps its own

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index f52c71a..7a7736d 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -300,7 +300,7 @@ namespace VirtualRobot
 
         if (o->getCollisionModel())
         {
-            c = o->getCollisionModel();
+            c = o->getCollisionModel()->clone(rn->getCollisionChecker());
         }
 
         auto rnf = RobotNodeFixedFactory::createInstance(nullptr);
-- 
2.43.0


From d7fb18871f9910bc41be790037c95b0cd5a66db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 027/111] fix: RobotFactory::attach refuses an object that
 cannot become a child of the node

---
 VirtualRobot/RobotFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 7a7736d..3747848 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -288,6 +288,12 @@ namespace VirtualRobot
             return false;
         }
 
+        if (rn->SceneObject::hasChild(name))
+        {
+            VR_WARNING << "A child with name " << name << " is already attached to " << rn->getName() << endl;
+            return false;
+        }
+
         SceneObject::Physics p = o->physics;
         VisualizationNodePtr v;
 
-- 
2.43.0


From c786cd3a2cd70aed459d8be1369ce71a116306fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 028/111] fix: detaching a robot node deregisters the nodes
 below it

---
 VirtualRobot/RobotFactory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 3747848..7e7b78d 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -329,7 +329,16 @@ namespace VirtualRobot
         }
 
         rn->getParent()->detachChild(rn);
-        robot->deregisterRobotNode(rn);
+
+        // the nodes below are not part of the robot any more
+        std::vector<RobotNodePtr> nodes;
+        rn->collectAllRobotNodes(nodes);
+
+        for (const auto & n : nodes)
+        {
+            robot->deregisterRobotNode(n);
+        }
+
         return true;
     }
 
-- 
2.43.0


From 047fb5a893504a8f49f32726d3dbea9730ca432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 029/111] fix: objects attached to a robot move with it

---
 VirtualRobot/Robot.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 4beb1e7..cef8fa1 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -332,6 +332,15 @@ namespace VirtualRobot
     void LocalRobot::applyJointValuesNoLock()
     {
         rootNode->updatePose(globalPose);
+
+        // objects that are attached to the robot itself
+        for (const auto & child : children)
+        {
+            if (child != rootNode)
+            {
+                child->setGlobalPoseNoChecks(globalPose);
+            }
+        }
     }
 
 
-- 
2.43.0


From 36407305acf920762f64121836975673e377b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 030/111] fix: a scene keeps one robot, object, trajectory, set
 or configuration per name

---
 VirtualRobot/Scene.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Scene.cpp b/VirtualRobot/Scene.cpp
index eaa2bb3..3cf0624 100644
--- a/VirtualRobot/Scene.cpp
+++ b/VirtualRobot/Scene.cpp
@@ -30,7 +30,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!robot, "NULL data");
 
-        if (hasRobot(robot))
+        if (hasRobot(robot) || hasRobot(robot->getName()))
         {
             return;
         }
@@ -78,7 +78,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!obstacle, "NULL data");
 
-        if (hasObstacle(obstacle))
+        if (hasObstacle(obstacle) || hasObstacle(obstacle->getName()))
         {
             return;
         }
@@ -128,7 +128,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!t, "NULL data");
 
-        if (hasTrajectory(t))
+        if (hasTrajectory(t) || hasTrajectory(t->getName()))
         {
             return;
         }
@@ -176,7 +176,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!manipulationObject, "NULL data");
 
-        if (hasManipulationObject(manipulationObject))
+        if (hasManipulationObject(manipulationObject) || hasManipulationObject(manipulationObject->getName()))
         {
             return;
         }
@@ -396,7 +396,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!robot, "NULL robot data");
         THROW_VR_EXCEPTION_IF(!config, "NULL config data");
 
-        if (hasRobotConfig(robot, config))
+        if (hasRobotConfig(robot, config) || hasRobotConfig(robot, config->getName()))
         {
             return;
         }
@@ -594,7 +594,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!sos, "NULL config data");
 
-        if (hasSceneObjectSet(sos))
+        if (hasSceneObjectSet(sos) || hasSceneObjectSet(sos->getName()))
         {
             return;
         }
-- 
2.43.0


From 46d4ae544a764f920fe4e98da9ddb37f0c7287a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 031/111] fix: Scene::getRobotConfig(robotName, name) prefers
 the registered robot of that name

---
 VirtualRobot/Scene.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Scene.cpp b/VirtualRobot/Scene.cpp
index 3cf0624..c88c063 100644
--- a/VirtualRobot/Scene.cpp
+++ b/VirtualRobot/Scene.cpp
@@ -493,6 +493,11 @@ namespace VirtualRobot
 
     VirtualRobot::RobotConfigPtr Scene::getRobotConfig(const std::string& robotName, const std::string& name)
     {
+        if (hasRobot(robotName))
+        {
+            return getRobotConfig(getRobot(robotName), name);
+        }
+
         for (auto & robotConfig : robotConfigs)
         {
             if (robotConfig.first->getName() == robotName)
-- 
2.43.0


From 9809eb1cc6f745159e7676af1aedd263a0ed0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 032/111] fix: robots of a scene file get the name given there

---
 VirtualRobot/XML/SceneIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index bf3af0d..082c73a 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -115,6 +115,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(fileName.empty(), "Missing file definition in scene's robot tag '" << robotName << "'." << endl);
         RobotPtr robot = RobotIO::loadRobot(fileName);
         THROW_VR_EXCEPTION_IF(!robot, "Invalid robot file in scene's robot tag '" << robotName << "'." << endl);
+        robot->setName(robotName);
         robot->setGlobalPose(globalPose);
         scene->registerRobot(robot);
 
-- 
2.43.0


From 856f4b4a4983f651ee40185e29fd9d2f5bf8bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 033/111] fix: the tcp of configurations in scene files is kept

---
 VirtualRobot/XML/SceneIO.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index 082c73a..fb46044 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -135,6 +135,12 @@ namespace VirtualRobot
         for (size_t i = 0; i < configDefinitions.size(); i++)
         {
             RobotConfigPtr rc(new RobotConfig(robot, configNames[i], configDefinitions[i]));
+
+            if (i < tcpNames.size() && !tcpNames[i].empty())
+            {
+                rc->setTCP(tcpNames[i]);
+            }
+
             scene->registerRobotConfig(robot, rc);
         }
 
-- 
2.43.0


From 5811746c0ab482c8df7c7f937385d9df556fcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 034/111] fix: stored trajectories name their robot, not only
 its type

---
 VirtualRobot/Trajectory.cpp |  2 +-
 VirtualRobot/XML/BaseIO.cpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 976896e..9f507bb 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -399,7 +399,7 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF((!robot || !rns), "Need a valid robot and rns");
 
 
-        ss << tab << "<Trajectory Robot='" << robot->getType() << "' RobotNodeSet='" << rns->getName() << "' name='" << name << "' dim='" << dimension << "'>\n";
+        ss << tab << "<Trajectory Robot='" << robot->getName() << "' RobotNodeSet='" << rns->getName() << "' name='" << name << "' dim='" << dimension << "'>\n";
 
         for (unsigned int i = 0; i < path.size(); i++)
         {
diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index e215414..5ac9b2c 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1737,13 +1737,22 @@ namespace VirtualRobot
 
         for (auto & robot : robots)
         {
-            if (robot->getType() == robotName)
+            if (robot->getName() == robotName)
             {
                 r = robot;
                 break;
             }
         }
 
+        // the type of the robot is accepted, too
+        for (auto robot = robots.begin(); !r && robot != robots.end(); robot++)
+        {
+            if ((*robot)->getType() == robotName)
+            {
+                r = *robot;
+            }
+        }
+
         THROW_VR_EXCEPTION_IF(!r, "Could not find robot with name " << robotName);
         RobotNodeSetPtr rns = r->getRobotNodeSet(nodeSetName);
         THROW_VR_EXCEPTION_IF(!rns, "Could not find RNS with name " << nodeSetName << " in robot " << robotName);
-- 
2.43.0


From 4cf455c85d4796c32cbc0b1ecf7c72e7a33c00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 035/111] fix: the pose in the file of a manipulation object is
 kept

---
 VirtualRobot/ManipulationObject.cpp | 15 ++++++---------
 VirtualRobot/XML/ObjectIO.cpp       |  5 ++++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/ManipulationObject.cpp b/VirtualRobot/ManipulationObject.cpp
index 813efeb..129a3f7 100644
--- a/VirtualRobot/ManipulationObject.cpp
+++ b/VirtualRobot/ManipulationObject.cpp
@@ -149,16 +149,13 @@ namespace VirtualRobot
             }
 
             ss << pre << t << "<File>" << relFile << "</File>\n";
+            // the file may define another pose, so that the identity is stored, too
             Eigen::Matrix4f gp = getGlobalPose();
-
-            if (!gp.isIdentity())
-            {
-                ss << pre << t << "<GlobalPose>\n";
-                ss << pre << t  << t  << "<Transform>\n";
-                ss << MathTools::getTransformXMLString(gp, tabs + 3);
-                ss << pre << t  << t  << "</Transform>\n";
-                ss << pre << t << "</GlobalPose>\n";
-            }
+            ss << pre << t << "<GlobalPose>\n";
+            ss << pre << t  << t  << "<Transform>\n";
+            ss << MathTools::getTransformXMLString(gp, tabs + 3);
+            ss << pre << t  << t  << "</Transform>\n";
+            ss << pre << t << "</GlobalPose>\n";
         }
         else
         {
diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 5cbbd92..fdf470a 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -82,8 +82,11 @@ namespace VirtualRobot
         std::string objectXML(buffer.str());
 
         VirtualRobot::ManipulationObjectPtr res = createManipulationObjectFromString(objectXML, basePath);
-        res->initialize();
         THROW_VR_EXCEPTION_IF(!res, "Error while parsing file.");
+        // initializing resets the pose
+        Eigen::Matrix4f globalPose = res->getGlobalPose();
+        res->initialize();
+        res->setGlobalPose(globalPose);
         return res;
     }
 
-- 
2.43.0


From 7cc088a6433c9da7638327f84b891178217287ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 036/111] fix: a grasp is added to a grasp set only once

---
 VirtualRobot/Grasping/GraspSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VirtualRobot/Grasping/GraspSet.cpp b/VirtualRobot/Grasping/GraspSet.cpp
index 0b741df..8f692b9 100644
--- a/VirtualRobot/Grasping/GraspSet.cpp
+++ b/VirtualRobot/Grasping/GraspSet.cpp
@@ -26,6 +26,10 @@ namespace VirtualRobot
         VR_ASSERT_MESSAGE(!hasGrasp(grasp), "Grasp already added!");
         VR_ASSERT_MESSAGE(isCompatibleGrasp(grasp), "Grasp is not compatible with this grasp set");
 
+        if (hasGrasp(grasp))
+        {
+            return;
+        }
 
         grasps.push_back(grasp);
     }
-- 
2.43.0


From d30a65623e203a4de6600792c0b1bde19ec60cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 037/111] fix: the tolerance given to the point collision check
 is used

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..878ae15 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,7 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
+                                      tolerance);
 
 
 
-- 
2.43.0


From e57355b0e00876ae56802427a53b8e3ae92cdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 038/111] fix: the nearest points of an added set are not
 searched within the set itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..aa582ca 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -248,6 +248,11 @@ namespace VirtualRobot
 
         for (const auto & colModel : colModels)
         {
+            if (m == colModel)
+            {
+                continue;
+            }
+
             tmp = (float)colChecker->calculateDistance(m, colModel, _P1, _P2, &_trID1, &_trID2);
 
             if (tmp < minDist)
-- 
2.43.0


From 126e5272acf48fd33c98334e785c3c819b6b259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 039/111] fix: CDManager::addCollisionModel does not iterate
 over the vector it extends

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa582ca..b3ef835 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -38,7 +38,10 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
-            for (const auto & colModel : colModels)
+            // addCollisionModelPair extends colModels
+            const std::vector<SceneObjectSetPtr> added = colModels;
+
+            for (const auto & colModel : added)
             {
                 if (m != colModel)
                 {
-- 
2.43.0


From 0fd79eb42eeecfd68fe660fbc31a7f888b327399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 040/111] fix: an object that is added to a CDManager again
 does not collide with itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index b3ef835..cd7e913 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -43,7 +43,10 @@ namespace VirtualRobot
 
             for (const auto & colModel : added)
             {
-                if (m != colModel)
+                // sets of one and the same object stand for that object
+                const bool sameObject = m->getSize() == 1 && colModel->getSize() == 1 && m->getSceneObject(0) == colModel->getSceneObject(0);
+
+                if (m != colModel && !sameObject)
                 {
                     addCollisionModelPair(colModel, m);
                 }
-- 
2.43.0


From 7c2ed9a834a76b9243baf2ec9ef8b93ded2e7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 041/111] fix: inflated and scaled collision models keep their
 pose

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index fcb119a..4df5259 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
@@ -398,6 +399,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
 
         if (visualization)
-- 
2.43.0


From 676aac508c982f8838ff7bf942069f3230a43dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 042/111] fix: flat copies of inflated collision models are
 inflated, too

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 4df5259..3d3c2cb 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -140,16 +140,7 @@ namespace VirtualRobot
         else
         {
             p.reset(new CollisionModel(visuOrigNew, nameNew, colChecker, idNew, this->collisionModelImplementation));
-            if(visualization)
-            {
-                p->visualization = visualization->clone(false, scaling);
-                p->margin = margin;
-            }
-            else
-            {                
-                p->inflateModel(margin);
-            }
-
+            p->inflateModel(margin);
         }
         p->setGlobalPose(getGlobalPose());
         p->setUpdateVisualization(getUpdateVisualizationStatus());
-- 
2.43.0


From bec132485f42bb26bff1dac55a713265eb821458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 043/111] fix: the length of a c-space path considers the
 weights when asked to

---
 MotionPlanning/CSpace/CSpacePath.cpp                | 2 +-
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..3aa3caf 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -135,7 +135,7 @@ namespace Saba
             c1 = path[i];
             c2 = path[i + 1];
 
-            l = cspace->calcDist(c1, c2, useCSpaceWeights);
+            l = cspace->calcDist(c1, c2, !useCSpaceWeights);
             pathLength += l;
         }
 
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..c609361 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -291,10 +291,10 @@ namespace Saba
 
         Eigen::VectorXf s = optimizedPath->getPoint(startIndex);
         Eigen::VectorXf e = optimizedPath->getPoint(endIndex);
-        Eigen::VectorXf d = e - s;
+
 
         // test line between start and end
-        float distShortcut = d.norm();
+        float distShortcut = cspace->calcDist(s, e);
         float distPath = optimizedPath->getLength(startIndex, endIndex);
 
         // -------------------------------------------------------------------
-- 
2.43.0


From d4f5d753abf1e4e24cb41bce193e9aec50d21dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 044/111] fix: interpolation reports an index that exists

---
 MotionPlanning/CSpace/CSpacePath.cpp | 8 ++++++--
 VirtualRobot/Trajectory.cpp          | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 3aa3caf..e9cf73b 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -331,7 +331,7 @@ namespace Saba
 
             if (storeIndex != nullptr)
             {
-                *storeIndex = (int)path.size();
+                *storeIndex = (int)path.size() - 1;
             }
 
             return;
@@ -357,7 +357,11 @@ namespace Saba
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 9f507bb..8690023 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -291,7 +291,11 @@ namespace VirtualRobot
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From c5343b22babc758478a8e1fa3b901bb0d21ddc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 045/111] fix: the length of a tree is computed with the
 parents of its nodes

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..7973861 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -463,9 +463,14 @@ namespace Saba
 
         for (unsigned int i = 0; i < nMaxNodes; i++)
         {
-            if (nodes[i] && nodes[i]->parentID >= 0 && nodes[i]->parentID < (int)nMaxNodes)
+            if (nodes[i] && nodes[i]->parentID >= 0)
             {
-                res += cspace->calcDist(nodes[i]->configuration, nodes[nodes[i]->parentID]->configuration, !useMetricWeights);
+                CSpaceNodePtr parent = getNode(nodes[i]->parentID);
+
+                if (parent)
+                {
+                    res += cspace->calcDist(nodes[i]->configuration, parent->configuration, !useMetricWeights);
+                }
             }
         }
 
-- 
2.43.0


From a7bfe4399fe0b6cfb37aa38f4dd0e6b9292b90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 046/111] fix: a removed node is no child of its parent any
 more

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 7973861..c8e3589 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -6,6 +6,7 @@
 #include "CSpace.h"
 #include "VirtualRobot/Robot.h"
 #include "VirtualRobot/RobotNodeSet.h"
+#include <algorithm>
 #include <cfloat>
 #include <cmath>
 #include <fstream>
@@ -285,6 +286,12 @@ namespace Saba
 
         nodes.erase(it);
         idNodeMapping.erase(n->ID);
+
+        if (updateChildren && n->parentID >= 0 && idNodeMapping.find(n->parentID) != idNodeMapping.end())
+        {
+            std::vector<CSpaceNodePtr>& siblings = idNodeMapping[n->parentID]->children;
+            siblings.erase(std::remove(siblings.begin(), siblings.end(), n), siblings.end());
+        }
         cspace->removeNode(n);
     }
 
-- 
2.43.0


From 357b009d34ded6ecb484b07aecc6f4243f0c27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 047/111] fix: a node that is not in use is not released again

---
 MotionPlanning/CSpace/CSpace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 40a496b..8286817 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -773,6 +773,12 @@ namespace Saba
             return;
         }
 
+        if (!node->allocated)
+        {
+            SABA_ERROR << " Could not remove node... (not in use, ID:" << node->ID << ")" << std::endl;
+            return;
+        }
+
         node->allocated = false;
         freeNodes.push_back(node);
     }
-- 
2.43.0


From 805d24ead66ee720545cbd17473243a64aa9f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 048/111] fix: the end of a path until invalid is checked for
 boundaries, too

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..62f155f 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -187,7 +187,7 @@ namespace Saba
             {
                 LOCAL_DEBUG("END" << endl);
 
-                if (!(isConfigValid(goal, false, true, true)))
+                if (!(isConfigValid(goal, true, true, true)))
                 {
                     LOCAL_DEBUG("not col free" << endl);
                     storeAddedLength = (origDist - dist) / origDist;
-- 
2.43.0


From 7b95ad25b23d13016b4e37df395143b8661b31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 049/111] fix: a cloned c-space has its own robot's nodes and
 the capacity of the original

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 62f155f..7d72555 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,7 +51,14 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = robotNodes;
+
+        if (newRobot != robo)
+        {
+            newRobotNodes = newRobot->hasRobotNodeSet(robotNodes->getName()) ? newRobot->getRobotNodeSet(robotNodes->getName()) : robotNodes->clone(newRobot);
+        }
+
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
 
         if (useMetricWeights)
-- 
2.43.0


From 94896d29d8719fc06cdc75351de126364ec16e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 050/111] fix: a sampler keeps its dimension

---
 MotionPlanning/CSpace/Sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/Sampler.cpp b/MotionPlanning/CSpace/Sampler.cpp
index 2ce3810..276d879 100644
--- a/MotionPlanning/CSpace/Sampler.cpp
+++ b/MotionPlanning/CSpace/Sampler.cpp
@@ -6,8 +6,8 @@ namespace Saba
 
     Sampler::Sampler(unsigned int dimension)
     {
-        dimension = dimension;
-        metricWeights.Ones(dimension);
+        this->dimension = dimension;
+        metricWeights.setOnes(dimension);
     }
 
     Sampler::~Sampler()
-- 
2.43.0


From 73e85d44475c9eb32a157267c998dff013200c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 051/111] fix: a planner has no solution when planning fails

---
 MotionPlanning/Planner/BiRrt.cpp         | 4 ++--
 MotionPlanning/Planner/GraspIkRrt.cpp    | 4 ++--
 MotionPlanning/Planner/MotionPlanner.cpp | 6 +-----
 MotionPlanning/Planner/Rrt.cpp           | 4 ++--
 4 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..b491c7f 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -73,6 +73,8 @@ namespace Saba
             }
         }
 
+        solution.reset();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -89,8 +91,6 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
 
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..f8608b0 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -193,6 +193,8 @@ namespace Saba
             SABA_INFO << "Starting GraspIkRrt planner" << std::endl;
         }
 
+        solution.reset();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -209,8 +211,6 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
         bVisStatus = robot->getUpdateVisualizationStatus();
diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 1ab9648..0467e4d 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -182,11 +182,6 @@ namespace Saba
 
     CSpacePathPtr MotionPlanner::getSolution()
     {
-        if (!solution)
-        {
-            createSolution();
-        }
-
         return solution;
     }
 
@@ -196,6 +191,7 @@ namespace Saba
         goalConfig.setZero(1);
         startValid = false;
         goalValid = false;
+        solution.reset();
 
         if (cspace)
         {
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..a010eb9 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -74,6 +74,8 @@ namespace Saba
 
         float r;
 
+        solution.reset();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -89,8 +91,6 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
 
-- 
2.43.0


From e6c0195d4ee4e7129bdb26ae2e8f983541c4e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 052/111] fix: planners restore the visualization status on a
 timeout, too

---
 MotionPlanning/Planner/BiRrt.cpp      | 6 ++++++
 MotionPlanning/Planner/GraspIkRrt.cpp | 6 ++++++
 MotionPlanning/Planner/GraspRrt.cpp   | 3 ++-
 MotionPlanning/Planner/Rrt.cpp        | 6 ++++++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index b491c7f..a491afd 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -224,6 +224,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index f8608b0..391b6d1 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -233,6 +233,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
         }
diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 48b6a1d..7e248c4 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -270,6 +270,7 @@ namespace Saba
                 return false;
             }
 
+        const bool bVisStatus = cspace->getRobot()->getUpdateVisualizationStatus();
         cspace->getRobot()->setUpdateVisualization(false);
 
         clock_t startClock = clock();
@@ -321,7 +322,7 @@ namespace Saba
             printPerformanceResults();
         }
 
-        cspace->getRobot()->setUpdateVisualization(true);
+        cspace->getRobot()->setUpdateVisualization(bVisStatus);
 
         if (foundSolution)
         {
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index a010eb9..ebf482e 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -191,6 +191,12 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
-- 
2.43.0


From f5685a57854495eae420f1b61d10add504440fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 053/111] fix: RRTs reach a configuration that is already part
 of the tree

---
 MotionPlanning/Planner/Rrt.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index ebf482e..7c4cb8e 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -270,6 +270,13 @@ namespace Saba
 
         bool reached = false;
 
+        if (totalLength == 0.0f)
+        {
+            // the configuration is already part of the tree
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // set randomly found configuration if distance is smaller than specific length
         if (totalLength <= extendStepSize)
         {
@@ -313,9 +320,15 @@ namespace Saba
     {
         // NEAREST NEIGHBOR OF RANDOM CONFIGURATION
         CSpaceNodePtr nn = tree->getNearestNeighbor(c);
-
         SABA_ASSERT(nn);
 
+        if (cspace->calcDist(nn->configuration, c) == 0.0f)
+        {
+            // the configuration is already part of the tree
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // CHECK PATH FOR COLLISIONS AND VALID NODES
         if (cspace->isPathValid(nn->configuration, c))
         {
@@ -338,6 +351,13 @@ namespace Saba
 
         int oldLastID = storeLastAddedID;
 
+        if (cspace->calcDist(nn->configuration, c) == 0.0f)
+        {
+            // the configuration is already part of the tree
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // CHECK PATH FOR COLLISIONS AND VALID NODES
         if (tree->appendPathUntilCollision(nn, c, &storeLastAddedID))
         {
@@ -440,7 +460,7 @@ namespace Saba
 
         // check if we have a path
 
-        if (!goalNode || goalNode->parentID < 0)
+        if (!goalNode || (goalNode->parentID < 0 && goalNode != startNode))
         {
             SABA_WARNING << " no path to goal..." << std::endl;
             return false;
-- 
2.43.0


From e0a1120bf16dc419b16228a1aa059ed2c759ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 054/111] fix: a new goal replaces the old one of a BiRrt

---
 MotionPlanning/Planner/BiRrt.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index a491afd..da5e72c 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -390,9 +390,10 @@ namespace Saba
         }
 
         // copy goal values
-        if (goalNode)
+        if (tree2->getNrOfNodes() > 0)
         {
-            tree2->removeNode(goalNode);
+            SABA_WARNING << "Removing all nodes from goal tree..." << endl;
+            tree2->reset();
         }
 
         goalNode =  tree2->appendNode(c, -1);
-- 
2.43.0


From 8400217b1622e87478ab1b15e302f4a918556836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 055/111] fix: path pruning copes with paths of less than two
 points

---
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index c609361..b277369 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -202,7 +202,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From 48a232661c8e817639ddaebc5a43ce34751416c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 056/111] fix: elastic band processing copes with short paths
 and keeps the visualization status

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..43bfd5a 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
@@ -273,7 +273,7 @@ using namespace VirtualRobot;
         unsigned int b = i;
         unsigned int c = i;
         if (i<optimizedPath->getNrOfPoints()-1)
-            a=i+1;
+            c=i+1;
 
         Eigen::VectorXf& before = optimizedPath->getPointRef(a);
         Eigen::VectorXf& act = optimizedPath->getPointRef(b);
@@ -304,6 +304,7 @@ using namespace VirtualRobot;
     {
         initSolution();
 
+        const bool visStatus = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
         for (int i=0;i<optimizeSteps;i++)
@@ -325,7 +326,7 @@ using namespace VirtualRobot;
             }
         }
 
-        rns->getRobot()->setUpdateVisualization(true);
+        rns->getRobot()->setUpdateVisualization(visStatus);
 
 
         return optimizedPath;
-- 
2.43.0


From aa4e9769937cff67c563df5f2bea6a3e674c72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 057/111] fix: start and goal of a plan satisfy the constraints

---
 MotionPlanning/Planner/MotionPlanner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 0467e4d..4176bd7 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -119,6 +119,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(startConfig))
+        {
+            SABA_WARNING << " start pos does violate constraints..." << std::endl;
+            return false;
+        }
+
         startValid = true;
         return true;
     }
@@ -148,6 +154,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(goalConfig))
+        {
+            SABA_WARNING << " goal pos does violate constraints..." << std::endl;
+            return false;
+        }
+
         goalValid = true;
         return true;
     }
-- 
2.43.0


From 723cb16ebad7be89604c497d8a60720da36e4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 058/111] fix: stopping a background run that is about to begin
 or to end waits for its thread

---
 MotionPlanning/Planner/PlanningThread.cpp           | 13 +++++++++++--
 .../PostProcessing/PathProcessingThread.cpp         | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..3a732cd 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -45,7 +45,12 @@ namespace Saba
     {
         if (!isRunning())
         {
-            // thread not started, nothing to do
+            // thread not started or already finished (it may still be about to leave its working method)
+            if (waitUntilStopped && planningThread.joinable())
+            {
+                planningThread.join();
+            }
+
             return;
         }
 
@@ -60,7 +65,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            planningThread.join();
+            // the stop flag is cleared at the beginning of the run, hence it may have to be set again
+            while (!planningThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                planner->stopExecution();
+            }
         }
     }
 
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..3049c7a 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -50,7 +50,12 @@ namespace Saba
     {
         if (!isRunning())
         {
-            // thread not started, nothing to do
+            // thread not started or already finished (it may still be about to leave its working method)
+            if (waitUntilStopped && processingThread.joinable())
+            {
+                processingThread.join();
+            }
+
             return;
         }
 
@@ -65,7 +70,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            processingThread.join();
+            // the stop flag is cleared at the beginning of the run, hence it may have to be set again
+            while (!processingThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                pathProcessor->stopExecution();
+            }
         }
     }
 
-- 
2.43.0


From b4880d186434b2681a51c52da27234ffc194e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 059/111] fix: a trajectory can be inserted into itself

---
 VirtualRobot/Trajectory.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 8690023..1756d40 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -208,13 +208,10 @@ namespace VirtualRobot
             return;
         }
 
-        int i = trajectoryToInsert->getNrOfPoints() - 1;
+        // copy the points, the trajectory may be inserted into itself
+        std::vector<Eigen::VectorXf> newConfigurations = trajectoryToInsert->getData();
 
-        while (i >= 0)
-        {
-            insertPosition(pos, trajectoryToInsert->getPoint(i));
-            i--;
-        }
+        insertPosition(pos, newConfigurations);
     }
 
 
-- 
2.43.0


From 379117342e6ffa3320692bf666b7d266965b4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 060/111] fix: checking an empty solution ends

---
 MotionPlanning/CSpace/CSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 8286817..95bb9d5 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -178,7 +178,7 @@ namespace Saba
             SABA_INFO << "Checking " << s << " segments:" << endl;
         }
 
-        for (unsigned int i = s - 1; i > 0; i--)
+        for (unsigned int i = s; i-- > 1;)
         {
             clock_t t1 = clock();
             bool bColFree = isPathValid(solution->getPoint(i), solution->getPoint(i - 1));
-- 
2.43.0


From b8d8d4634f609dd1bf4b209312da76d58ab1ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 061/111] fix: elastic band processing can be stopped

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 43bfd5a..064f05a 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -302,12 +302,13 @@ using namespace VirtualRobot;
 
     CSpacePathPtr ElasticBandProcessor::optimize(int optimizeSteps)
     {
+        stopOptimization = false;
         initSolution();
 
         const bool visStatus = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
-        for (int i=0;i<optimizeSteps;i++)
+        for (int i=0;i<optimizeSteps && !stopOptimization;i++)
         {
             if (!elasticBandLoop())
             {
-- 
2.43.0


From b6e037d8cca8bb71d083a10567d0e6039ea11cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 062/111] fix: makeRelativePath of the base path itself did not
 end

---
 VirtualRobot/XML/BaseIO.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 5ac9b2c..621c139 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -813,7 +813,7 @@ namespace VirtualRobot
         fs::path::iterator itFile = filepath.begin();
         fs::path newPath;
 
-        while (*itBasePath == *itFile)
+        while (itBasePath != basePathDir.end() && itFile != filepath.end() && *itBasePath == *itFile)
         {
             itFile++;
             itBasePath++;
@@ -829,6 +829,11 @@ namespace VirtualRobot
             newPath /= *itFile;
         }
 
+        if (newPath.empty())
+        {
+            newPath = "."; // the base path itself
+        }
+
         filename = newPath.generic_string();
 #else
         // version compatible with boost below version 1.48,
-- 
2.43.0


From d3ed342a29f65312825c24048dbaa4aa5dc50296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 063/111] fix: a command line key considered twice made every
 command line ambiguous

---
 VirtualRobot/RuntimeEnvironment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index 7ffdb66..fb8e292 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -8,6 +8,8 @@
 #include "VirtualRobotException.h"
 #include "Visualization/VisualizationFactory.h"
 
+#include <algorithm>
+
 
 namespace VirtualRobot
 {
@@ -336,7 +338,11 @@ namespace VirtualRobot
 
     void RuntimeEnvironment::considerKey(const std::string& key)
     {
-        processKeys.push_back(key);
+        // a key that is known twice would be ambiguous
+        if (std::find(processKeys.begin(), processKeys.end(), key) == processKeys.end())
+        {
+            processKeys.push_back(key);
+        }
     }
 
     bool RuntimeEnvironment::hasValue(const std::string& key)
-- 
2.43.0


From 90884744e6a252337ca43f23192f2995fced3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 064/111] fix: workspace data counted erased voxels as filled
 and kept the maximum of lowered entries

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 50 +++++++++++++------
 VirtualRobot/Workspace/WorkspaceDataArray.h   |  1 +
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..13134c8 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -163,14 +163,26 @@ namespace VirtualRobot
 
     void WorkspaceDataArray::setDatum(unsigned int x0, unsigned int x1, unsigned int x2, unsigned int x3, unsigned int x4, unsigned int x5, unsigned char value)
     {
-        ensureData(x0, x1, x2);
+        unsigned int x[6] = { x0, x1, x2, x3, x4, x5 };
+        setDatum(x, value);
+    }
+
+    void WorkspaceDataArray::setDatum(unsigned int x[], unsigned char value)
+    {
+        ensureData(x[0], x[1], x[2]);
         unsigned int posTr = 0, posRot = 0;
-        getPos(x0, x1, x2, x3, x4, x5, posTr, posRot);
+        getPos(x, posTr, posRot);
+
+        const unsigned char oldValue = data[posTr][posRot];
 
-        if (data[posTr][posRot] == 0)
+        if (oldValue == 0 && value != 0)
         {
             voxelFilledCount++;
         }
+        else if (oldValue != 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -178,24 +190,32 @@ namespace VirtualRobot
         {
             maxEntry = value;
         }
+        else if (oldValue == maxEntry)
+        {
+            // the old value might have been the only maximum
+            updateMaxEntry();
+        }
     }
 
-    void WorkspaceDataArray::setDatum(unsigned int x[], unsigned char value)
+    void WorkspaceDataArray::updateMaxEntry()
     {
-        ensureData(x[0], x[1], x[2]);
-        unsigned int posTr = 0, posRot = 0;
-        getPos(x, posTr, posRot);
+        maxEntry = 0;
+        const unsigned int sizeRot = getSizeRot();
 
-        if (data[posTr][posRot] == 0)
+        for (unsigned int posTr = 0; posTr < getSizeTr(); posTr++)
         {
-            voxelFilledCount++;
-        }
-
-        data[posTr][posRot] = value;
+            if (!data[posTr])
+            {
+                continue;
+            }
 
-        if (value >= maxEntry)
-        {
-            maxEntry = value;
+            for (unsigned int posRot = 0; posRot < sizeRot; posRot++)
+            {
+                if (data[posTr][posRot] > maxEntry)
+                {
+                    maxEntry = data[posTr][posRot];
+                }
+            }
         }
     }
 
diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.h b/VirtualRobot/Workspace/WorkspaceDataArray.h
index 1f8191e..cbd5339 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.h
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.h
@@ -122,6 +122,7 @@ namespace VirtualRobot
     protected:
 
         void ensureData(unsigned int x, unsigned int y, unsigned int z);
+        void updateMaxEntry();
         int sumAngleReachabilities(int x0, int x1, int x2);
 
         inline void getPos(unsigned int x0, unsigned int x1, unsigned int x2,
-- 
2.43.0


From 00b13b4b5511fef4655f704cc4cf5c304d294139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 065/111] fix: binarizing empty workspace data reported a
 maximum of 1

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 13134c8..125a0f4 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -360,7 +360,10 @@ namespace VirtualRobot
             }
         }
 
-        maxEntry = minValidValue;
+        if (maxEntry > minValidValue)
+        {
+            maxEntry = minValidValue;
+        }
     }
 
     void WorkspaceDataArray::bisectData()
-- 
2.43.0


From 242e7aaf29744a3fa273df583db102ec6ee460b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 066/111] fix: summed entries of workspace data were always 0

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 125a0f4..ce1ca84 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -281,7 +281,7 @@ namespace VirtualRobot
     {
         int res = 0;
 
-        if (hasEntry(x0, x1, x2))
+        if (!hasEntry(x0, x1, x2))
         {
             return 0;
         }
-- 
2.43.0


From 5048221e0c3e7216d1de12f3544cff7877c06ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 067/111] fix: WorkspaceData::hasEntry reported positions whose
 entries have been erased

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index ce1ca84..f2f366f 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -537,7 +537,25 @@ namespace VirtualRobot
             return false;
         }
 
-        return (data[x * sizeTr0 + y * sizeTr1 + z] != nullptr);
+        const unsigned char* block = data[x * sizeTr0 + y * sizeTr1 + z];
+
+        if (!block)
+        {
+            return false;
+        }
+
+        // the block may exist although all its entries have been erased
+        const unsigned int sizeRot = getSizeRot();
+
+        for (unsigned int i = 0; i < sizeRot; i++)
+        {
+            if (block[i] != 0)
+            {
+                return true;
+            }
+        }
+
+        return false;
     }
 
     WorkspaceData* WorkspaceDataArray::clone()
-- 
2.43.0


From 72999dc1c934cec9f2d8e8473bc357156d3afc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 068/111] fix: poses more than a voxel below the lower
 workspace bounds were put into the first voxel

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..30d7aed 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -805,12 +805,12 @@ namespace VirtualRobot
         for (int i = 0; i < 6; i++)
         {
             pos = ((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i];
-            a = (int)(pos);
+            a = (int)floor(pos);
 
             if (a < 0)
             {
                 // check for rounding errors
-                if (a==-1 && (fabs(float(a) - pos)<0.5f))
+                if (a==-1 && (fabs(pos)<0.5f))
                     a = 0;
                 else
                     return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
@@ -847,7 +847,7 @@ namespace VirtualRobot
 
         for (int i = 0; i < 3; i++)
         {
-            a = (int)(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
+            a = (int)floor(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
             if (a < 0)
             {
                 return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
-- 
2.43.0


From 686737cb4225c3518bdf24c39fe335f3a5a1fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 069/111] fix: saved workspace data was read with another
 orientation type or compression than it was written with

---
 .../Workspace/WorkspaceRepresentation.cpp     | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 30d7aed..a316ed1 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -516,8 +516,29 @@ namespace VirtualRobot
             FileIO::writeString(file, tmpStr);
 
             // Version
-            FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(versionMajor));
-            FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(versionMinor));
+            // The version tells the orientation type and the compression, so it is given by the current data (and not by the file that was loaded)
+            int fileVersionMinor = 9;
+
+            switch (orientationType)
+            {
+                case RPY:
+                    fileVersionMinor = 5;
+                    break;
+
+                case EulerXYZ:
+                    fileVersionMinor = 6;
+                    break;
+
+                case EulerXYZExtrinsic:
+                    fileVersionMinor = 7;
+                    break;
+
+                default:
+                    break;
+            }
+
+            FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(2));
+            FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(fileVersionMinor));
 
             // Robot type
             FileIO::writeString(file, robot->getType());
-- 
2.43.0


From 18af6bb65a1e33e6dca70b6d5ff73c5afdfe2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 070/111] fix: getPoseFromVoxel could return a pose of the next
 voxel

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index a316ed1..a108787 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1268,15 +1268,7 @@ namespace VirtualRobot
             }
 
             v[i] = ((((float) x[i]) * spaceSize[i]) / ((float)numVoxels[i]))  + minBounds[i];
-
-            if (i < 3)
-            {
-                v[i] += discretizeStepTranslation / 2;
-            }
-            else
-            {
-                v[i] += discretizeStepRotation / 2;
-            }
+            v[i] += getVoxelSize(i) / 2;
         }
 
         return true;
-- 
2.43.0


From 6d3b5e4c08ca0da1844bafc6f563644dfee73daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 071/111] fix: fillHoles changed filled voxels instead of empty
 ones

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index a108787..74b8eba 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1405,7 +1405,7 @@ namespace VirtualRobot
                         for (x[4] = 1; x[4] < (unsigned int)numVoxels[4] - 1; x[4]++)
                             for (x[5] = 1; x[5] < (unsigned int)numVoxels[5] - 1; x[5]++)
                             {
-                                if (data->get(x) > 0)
+                                if (data->get(x) == 0)
                                 {
                                     int sum = 0;
                                     int count = 0;
-- 
2.43.0


From b4c46d633431350d433cc7fe24b649030973baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 072/111] fix: WorkspaceRepresentation::getAdjustOnOverflow was
 never set

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 74b8eba..dd4bad3 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1194,6 +1194,7 @@ namespace VirtualRobot
         // build data
         this->discretizeStepTranslation = discretizeStepTranslation;
         this->discretizeStepRotation = discretizeStepRotation;
+        this->adjustOnOverflow = adjustOnOverflow;
 
         for (int i = 0; i < 6; i++)
         {
-- 
2.43.0


From acf15c510b97ea5d9ea5de1914984fe94f621bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 073/111] fix: workspace data stored without a base node was
 loaded with its TCP as base node

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index dd4bad3..698fa22 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -273,6 +273,7 @@ namespace VirtualRobot
             // Check Base Joint
             if (version[0] > 1 || (version[0] == 1 &&  version[1] > 0))
             {
+                tmpString.clear(); // an empty name is not read
                 FileIO::readString(tmpString, file);
                 if (tmpString.empty() || !robot->hasRobotNode(tmpString))
                 {
-- 
2.43.0


From afb3b8f1e1f3510afd5cf646d19b60e765aad9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 074/111] fix: places below the lower bounds of a workspace
 grid were put into its first cells

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d322e38..d4dc93a 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -6,6 +6,7 @@
 #include "../Robot.h"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 using namespace std;
 
 #define MIN_VALUES_STORE_GRASPS 100
@@ -65,8 +66,8 @@ namespace VirtualRobot
             return 0;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -84,8 +85,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -115,8 +116,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -198,8 +199,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)floor(((y - minY) / gridExtendY) * gridSizeY);
         setCellEntry(nPosX, nPosY, value, grasp);
     }
 
@@ -242,8 +243,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
-- 
2.43.0


From 25bedb5bfbdfc7c20b853bcb75fd5cfd3abb072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 075/111] fix: WorkspaceGrid::getRandomPos returned places
 outside the cell it had chosen

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d4dc93a..12f7228 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -381,8 +381,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * (gridExtendX / (float)gridSizeX);
+                storeYGlobal = minY + ((float)y + 0.5f) * (gridExtendY / (float)gridSizeY);
 
                 return true;
             }
@@ -415,8 +415,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * (gridExtendX / (float)gridSizeX);
+                storeYGlobal = minY + ((float)y + 0.5f) * (gridExtendY / (float)gridSizeY);
                 return true;
             }
 
-- 
2.43.0


From 1256fe094dcf18afdf10b623d9efc2036daa8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 076/111] fix: merged workspace grids missed cells, used
 uninitialized values and could not be built for negative positions

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index 12f7228..8eb311e 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -506,9 +506,9 @@ namespace VirtualRobot
     WorkspaceGridPtr WorkspaceGrid::MergeWorkspaceGrids(const std::vector<WorkspaceGridPtr> &grids)
     {
         VR_ASSERT(grids.size() >= 2);
-        float totalMaxX = std::numeric_limits<float>::min();
+        float totalMaxX = std::numeric_limits<float>::lowest();
         float totalMinX = std::numeric_limits<float>::max();
-        float totalMaxY = std::numeric_limits<float>::min();
+        float totalMaxY = std::numeric_limits<float>::lowest();
         float totalMinY = std::numeric_limits<float>::max();
         for(auto& grid : grids)
         {
@@ -522,15 +522,18 @@ namespace VirtualRobot
 //        VR_INFO << "minx : " << totalMinX << " maxX: " << totalMaxX << " step size: " << resultGrid->getDiscretizeSize() << endl;
 //        int sameValueCount =  0;
 //        int totalValueCount = 0;
-        for(float x = totalMinX; x < totalMaxX; x += resultGrid->getDiscretizeSize())
+        for(int cellX = 0; cellX < resultGrid->gridSizeX; cellX++)
         {
-            for(float y = totalMinY; y < totalMaxY; y += resultGrid->getDiscretizeSize())
+            for(int cellY = 0; cellY < resultGrid->gridSizeY; cellY++)
             {
+                // center of the cell
+                const float x = totalMinX + ((float)cellX + 0.5f) * (resultGrid->gridExtendX / (float)resultGrid->gridSizeX);
+                const float y = totalMinY + ((float)cellY + 0.5f) * (resultGrid->gridExtendY / (float)resultGrid->gridSizeY);
                 int min = std::numeric_limits<int>::max();
                 GraspPtr grasp;
                 for(auto& grid : grids)
                 {
-                    int score;
+                    int score = 0; // nothing is reachable outside of a grid
                     GraspPtr tmpGrasp;
                     if(grid->getEntry(x, y, score, tmpGrasp))
                     {
@@ -539,7 +542,7 @@ namespace VirtualRobot
                     min = std::min(score, min);
                 }
 //                totalValueCount++;
-                resultGrid->setEntry(x, y, min, grasp);
+                resultGrid->setCellEntry(cellX, cellY, min, grasp);
             }
         }
 //        VR_INFO << "Same value percentage: " << (100.f * sameValueCount/totalValueCount) << endl;
-- 
2.43.0


From d4ad97d05a5955b58fafb7667be85f779719aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 077/111] fix: additions that are refused leave the physics
 world as it was

A second BulletEngine::addObject put the body into the bullet world again, and
addRobot added the bodies and constraints of a wrapper before it found that
the robot is there already. removeRobot of a robot that was not added enabled
collisions between its links.
---
 .../BulletEngine/BulletEngine.cpp             | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 7fa7948..8b20e0b 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -203,6 +203,12 @@ namespace SimDynamics
             return false;
         }
 
+        if (find(objects.begin(), objects.end(), o) != objects.end())
+        {
+            // already part of this world, a second body must not be created
+            return DynamicsEngine::addObject(o);
+        }
+
         int btColFlag;
 
         switch (o->getSimType())
@@ -426,6 +432,19 @@ namespace SimDynamics
             return false;
         }
 
+        bool known = find(robots.begin(), robots.end(), r) != robots.end();
+
+        // refuses a second wrapper for the same robot
+        if (!DynamicsEngine::addRobot(r))
+        {
+            return false;
+        }
+
+        if (known)
+        {
+            return true;
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
@@ -439,7 +458,7 @@ namespace SimDynamics
             addLink(link);
         }
 
-        return DynamicsEngine::addRobot(r);
+        return true;
     }
 
     void BulletEngine::addExternalCallback(BulletStepCallback function, void* data)
@@ -490,10 +509,14 @@ namespace SimDynamics
             return false;
         }
 
+        if (find(robots.begin(), robots.end(), r) == robots.end())
+        {
+            return false;
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
-
         for (auto & link : links)
         {
             removeLink(link);
-- 
2.43.0


From 1c8193856ce97783710bb81f51dfc3fd5e5fa834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 078/111] fix: BulletObject::setPosition keeps the orientation

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 95a6633..b5327ca 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -276,7 +276,7 @@ namespace SimDynamics
     void BulletObject::setPosition(const Eigen::Vector3f& posMM)
     {
         MutexLockPtr lock = getScopedLock();
-        Eigen::Matrix4f pose = Eigen::Matrix4f::Identity();
+        Eigen::Matrix4f pose = sceneObject->getGlobalPose();
         pose.block(0, 3, 3, 1) = posMM;
         setPose(pose);
     }
-- 
2.43.0


From b9110a27d0cf8f20b2788d4223ba1d0eec17c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 079/111] fix: the floor of the physics world is placed as
 requested

createFloorPlane ignored the position and put the floor below the xy plane
for every up vector.
---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 8b20e0b..6344319 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -312,7 +312,7 @@ namespace SimDynamics
         groundObject->setName(name);
         Eigen::Matrix4f gp;
         gp.setIdentity();
-        gp(2, 3) = -sizeSmall * 0.5f;
+        gp.block(0, 3, 3, 1) = pos - up * sizeSmall * 0.5f;
         groundObject->setGlobalPose(gp);
 
         groundObject->getVisualization();
-- 
2.43.0


From e4595fff4e328407efdb914beda55f4cbc7101b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 080/111] fix: actuating a joint with velocity zero does not
 need a former target

---
 SimDynamics/DynamicsEngine/DynamicsRobot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
index ad3ac8b..f85d0b4 100644
--- a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
@@ -210,7 +210,7 @@ namespace SimDynamics
 //            target.jointValueTarget = oldTargetIt->second.jointValueTarget;
 //        }
 //        else
-        if(std::abs(jointVelocity) < 1e-10)
+        if(std::abs(jointVelocity) < 1e-10 && oldTargetIt != actuationTargets.end())
         {
             //do not move
             target.jointValueTarget = oldTargetIt->second.jointValueTarget;
-- 
2.43.0


From 40e40d5f5dbb9baa58287329963f36af1d4f67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 081/111] fix: a target for a joint that moves no body does not
 stop the simulation

actuateNode with a velocity and actuateNodeTorque accept any joint, the next
simulation step failed with 'No link with node'.
---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 1e65be5..42dc71a 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -508,6 +508,12 @@ namespace SimDynamics
             if (!it->second.node->isRotationalJoint() && !it->second.node->isTranslationalJoint())
                 continue;
 
+            if (!hasLink(it->second.node))
+            {
+                // no body is moved by this joint
+                continue;
+            }
+
             LinkInfo link = getLink(it->second.node);
 
             const ActuationMode& actuation = it->second.actuation;
-- 
2.43.0


From d6636c8f5133b7c0c4b31203563b9225eb567fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 082/111] fix: a pose that was set survives a short simulation
 step

A step that is too short for an internal time step of bullet updates the scene
objects from the interpolated pose of the body, which setPose left as it was.
---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index b5327ca..51dbf96 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -289,6 +289,8 @@ namespace SimDynamics
         poseLocal.block(0, 3, 3, 1) += com;
         Eigen::Matrix4f poseGlobal = pose * poseLocal;
         this->rigidBody->setWorldTransform(BulletEngine::getPoseBullet(poseGlobal));
+        // otherwise the former pose is restored by a step that is shorter than the internal time step
+        this->rigidBody->setInterpolationWorldTransform(this->rigidBody->getWorldTransform());
 
         // notify motionState of non-robot nodes
         if(!boost::dynamic_pointer_cast<VirtualRobot::RobotNode>(sceneObject))
-- 
2.43.0


From 0d02dca7965013ff96359b83a9df922e9a91f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 083/111] fix: BulletObject::getComGlobal is up to date after a
 robot was moved

DynamicsRobot::setGlobalPose moves the bodies but not the motion states of the
nodes, so that getComGlobal and the links to objects that are attached before
the next step referred to the former pose.
---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 51dbf96..4b2f4bc 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -361,9 +361,8 @@ namespace SimDynamics
     Eigen::Matrix4f BulletObject::getComGlobal()
     {
         MutexLockPtr lock = getScopedLock();
-        btTransform tr;
-        motionState->getWorldTransform(tr);
-        return BulletEngine::getPoseEigen(tr);
+        // the motion state of a robot node is only updated by the simulation
+        return BulletEngine::getPoseEigen(rigidBody->getWorldTransform());
     }
 
     void BulletObject::applyForce(const Eigen::Vector3f& force)
-- 
2.43.0


From 69b7d54d41b156281721edc6724178156f06ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 084/111] fix: an object whose pose is set is placed where the
 pose says

SimoxMotionState::setGlobalPose added the center of mass in the orientation the
object had before, so that an object with a displaced center of mass that was
turned ended up beside the requested position.
---
 .../DynamicsEngine/BulletEngine/SimoxMotionState.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index ce9f4a0..70cadb6 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -181,9 +181,9 @@ namespace SimDynamics
     {
         initalGlobalPose = pose;
         /* convert to local coord system, apply comoffset and convert back*/
-        Eigen::Matrix4f poseLocal = sceneObject->getGlobalPose().inverse() * pose;
-        poseLocal.block(0, 3, 3, 1) += com;
-        Eigen::Matrix4f poseGlobal = sceneObject->getGlobalPose() * poseLocal;
+        Eigen::Matrix4f poseLocal = Eigen::Matrix4f::Identity();
+        poseLocal.block(0, 3, 3, 1) = com;
+        Eigen::Matrix4f poseGlobal = pose * poseLocal;
         m_startWorldTrans = BulletEngine::getPoseBullet(poseGlobal);
         //m_startWorldTrans.getOrigin() -= _comOffset.getOrigin();
         updateTransform();
-- 
2.43.0


From ecfe6c825120dcbc3cf51f563ddbfb2f932a18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 085/111] fix: a new physics object does not inherit disabled
 collisions

The engine keeps the switches by address, so that an object created where a
former one had been did not collide with what that one had been told to ignore.
---
 .../DynamicsEngine/BulletEngine/BulletEngine.cpp       |  1 +
 SimDynamics/DynamicsWorld.cpp                          | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 6344319..8095ceb 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -322,6 +322,7 @@ namespace SimDynamics
 
         BulletObjectPtr groundObjectBt(new BulletObject(groundObject));
         floor = groundObjectBt;
+        resetCollisions(groundObjectBt.get());
 
         addObject(groundObjectBt);
     }
diff --git a/SimDynamics/DynamicsWorld.cpp b/SimDynamics/DynamicsWorld.cpp
index 9970ac9..78c25a7 100644
--- a/SimDynamics/DynamicsWorld.cpp
+++ b/SimDynamics/DynamicsWorld.cpp
@@ -100,7 +100,15 @@ namespace SimDynamics
         DynamicsEngineFactoryPtr factory = DynamicsEngineFactory::first(nullptr);
         SIMDYNAMICS_ASSERT(factory);
 
-        return factory->createObject(o);
+        DynamicsObjectPtr result = factory->createObject(o);
+
+        if (world && result)
+        {
+            // collisions may have been disabled for a former object at this address
+            world->getEngine()->resetCollisions(result.get());
+        }
+
+        return result;
     }
 
     void DynamicsWorld::createFloorPlane(const Eigen::Vector3f& pos /*= Eigen::Vector3f(0,0,0)*/,
-- 
2.43.0


From 06b7054627bb792b70fc28672435af219e713478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 086/111] fix: switching collisions on or off takes effect for
 bodies that already touch

---
 .../BulletEngine/BulletEngine.cpp             | 45 +++++++++++++++++++
 .../BulletEngine/BulletEngine.h               | 10 +++++
 2 files changed, 55 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 8095ceb..185e567 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -276,6 +276,51 @@ namespace SimDynamics
         return true;
     }
 
+    void BulletEngine::updateCollisionPairs(DynamicsObject* o)
+    {
+        BulletObject* btObject = dynamic_cast<BulletObject*>(o);
+
+        if (dynamicsWorld && btObject && btObject->getRigidBody()->getBroadphaseHandle())
+        {
+            dynamicsWorld->refreshBroadphaseProxy(btObject->getRigidBody().get());
+        }
+    }
+
+    void BulletEngine::disableCollision(DynamicsObject* o1, DynamicsObject* o2)
+    {
+        MutexLockPtr lock = getScopedLock();
+        DynamicsEngine::disableCollision(o1, o2);
+        updateCollisionPairs(o1);
+    }
+
+    void BulletEngine::enableCollision(DynamicsObject* o1, DynamicsObject* o2)
+    {
+        MutexLockPtr lock = getScopedLock();
+        DynamicsEngine::enableCollision(o1, o2);
+        updateCollisionPairs(o1);
+    }
+
+    void BulletEngine::resetCollisions(DynamicsObject* o)
+    {
+        MutexLockPtr lock = getScopedLock();
+        DynamicsEngine::resetCollisions(o);
+        updateCollisionPairs(o);
+    }
+
+    void BulletEngine::disableCollision(DynamicsObject* o1)
+    {
+        MutexLockPtr lock = getScopedLock();
+        DynamicsEngine::disableCollision(o1);
+        updateCollisionPairs(o1);
+    }
+
+    void BulletEngine::enableCollision(DynamicsObject* o1)
+    {
+        MutexLockPtr lock = getScopedLock();
+        DynamicsEngine::enableCollision(o1);
+        updateCollisionPairs(o1);
+    }
+
     btDynamicsWorld* BulletEngine::getBulletWorld()
     {
         return dynamicsWorld;
diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
index 95b44f2..8688ca7 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h
@@ -93,6 +93,13 @@ namespace SimDynamics
         bool addRobot(DynamicsRobotPtr r) override;
         bool removeRobot(DynamicsRobotPtr r) override;
 
+        // these take effect also for bodies that are already close to each other
+        void disableCollision(DynamicsObject* o1, DynamicsObject* o2) override;
+        void enableCollision(DynamicsObject* o1, DynamicsObject* o2) override;
+        void resetCollisions(DynamicsObject* o) override;
+        void disableCollision(DynamicsObject* o1) override;
+        void enableCollision(DynamicsObject* o1) override;
+
         /*!
             Initialize the engine with this configuration.
             \param config Either a standard init (could be NULL), or if config is of type BulletEngineConfig, Bullet specific parameters will be considered.
@@ -180,6 +187,9 @@ namespace SimDynamics
         virtual bool addLink(BulletRobot::LinkInfo& l);
         virtual bool removeLink(BulletRobot::LinkInfo& l);
 
+        //! Renews the collision pairs and contacts which bullet caches for this object
+        void updateCollisionPairs(DynamicsObject* o);
+
         btDynamicsWorld* dynamicsWorld;
 
         btBroadphaseInterface* overlappingPairCache;
-- 
2.43.0


From 8de2e7ee40e86a9e2e018ca54071453ea2211d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 087/111] fix: detaching an object that was attached twice did
 not report success

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 42dc71a..130c114 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -956,7 +956,6 @@ namespace SimDynamics
             return false;
         }
 
-        bool res = true;
         std::vector<LinkInfo> ls = getLinks(bo);
 
         if (ls.size() == 0)
@@ -967,11 +966,12 @@ namespace SimDynamics
 
         for (const auto & l : ls)
         {
-            res = res & removeLink(l);
+            // links between the same bodies are removed together
+            removeLink(l);
         }
 
         VR_INFO << "Detached object " << object->getName() << " from robot " << robot->getName() << endl;
-        return res;
+        return getLinks(bo).size() == 0;
     }
 
     bool BulletRobot::hasLink(VirtualRobot::RobotNodePtr node)
-- 
2.43.0


From a213463d89a9bf81bad8ad69f9247cf4acfc2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 088/111] fix: the torque of a joint without torque limit was
 replaced by 1 Nm in the opposite direction

---
 .../DynamicsEngine/BulletEngine/BulletRobot.cpp  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 130c114..0e33ff9 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -556,8 +556,12 @@ namespace SimDynamics
                              hingeAxisLocalB;
 
 
-                     int sign = torque > 0?1:-1;
-                     torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     if (it->first->getMaxTorque() > 0)
+                     {
+                         // a negative limit means that there is none
+                         int sign = torque > 0?1:-1;
+                         torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     }
 
                      btVector3 hingeTorqueA = - torque * hingeAxisWorldA;
                      btVector3 hingeTorqueB =   torque * hingeAxisWorldB;
@@ -582,8 +586,12 @@ namespace SimDynamics
                              sliderAxisLocalB;
 
 
-                     int sign = torque > 0?1:-1;
-                     torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     if (it->first->getMaxTorque() > 0)
+                     {
+                         // a negative limit means that there is none
+                         int sign = torque > 0?1:-1;
+                         torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     }
 
                      btVector3 sliderTorqueA = - torque * sliderAxisWorldA;
                      btVector3 sliderTorqueB =   torque * sliderAxisWorldB;
-- 
2.43.0


From f7adb14b5ff08c3963e94eff4b1d5eab3d917003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 089/111] fix: PositionConstraint accepted any negative
 deviation along a single axis

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..50538e1 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -25,6 +25,8 @@
 
 #include <VirtualRobot/Robot.h>
 
+#include <cmath>
+
 using namespace VirtualRobot;
 
 PositionConstraint::PositionConstraint(const VirtualRobot::RobotPtr &robot, const VirtualRobot::RobotNodeSetPtr &nodeSet, const VirtualRobot::SceneObjectPtr &eef,
@@ -105,13 +107,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::abs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::abs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::abs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 4440e78d9b5eedc3cd5cec04809ef1ffed74161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 090/111] fix: TSRConstraint ignored the tolerances it was
 given

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..0238709 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From 6c6aac72a119555b35ea35734991b3180918f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 091/111] fix: errors of DifferentialIK for the default tcp
 ignored what its goal selects

---
 VirtualRobot/IK/DifferentialIK.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..69129da 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -767,14 +767,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorPosition(SceneObjectPtr tcp)
     {
-        if (modes[tcp] == IKSolver::Orientation)
+        if (!tcp)
         {
-            return 0.0f;    // ignoring position
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (modes[tcp] == IKSolver::Orientation)
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // ignoring position
         }
 
         Vector3f position = targets[tcp].block(0, 3, 3, 1) - tcp->getGlobalPose().block(0, 3, 3, 1);
@@ -800,14 +800,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorRotation(SceneObjectPtr tcp)
     {
-        if (!(modes[tcp] & IKSolver::Orientation))
+        if (!tcp)
         {
-            return 0.0f;    // no error in this dimensions
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (!(modes[tcp] & IKSolver::Orientation))
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // no error in this dimensions
         }
 
         Matrix4f orientation = this->targets[tcp] * tcp->getGlobalPose().inverse();
-- 
2.43.0


From d94195327da3756ad25c6ce29f8bd788c0816d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 092/111] fix: solving for an object without grasps for the end
 effector crashed

---
 VirtualRobot/IK/AdvancedIKSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..28cc451 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -128,7 +128,12 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        GraspSetPtr gs = object->getGraspSet(eef)->clone();
+        GraspSetPtr gs = object->getGraspSet(eef);
+
+        if (gs)
+        {
+            gs = gs->clone();
+        }
 
         if (!gs || gs->getSize() == 0)
         {
-- 
2.43.0


From c86ffd468a9bd142cc0f2a5d9ab8e0376917335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 093/111] fix: CoMIK mixed coordinate systems in its Jacobian

---
 VirtualRobot/IK/CoMIK.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index d68aef4..89aeca8 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -79,6 +79,12 @@ namespace VirtualRobot
                     Eigen::Vector3f toTCP = node->getCoMGlobal()
                                             - dof->getGlobalPose().block(0, 3, 3, 1);
 
+                    if (coordSystem)
+                    {
+                        // the axis is given in this coordinate system, too
+                        toTCP = coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * toTCP;
+                    }
+
                     if (convertMMtoM)
                     {
                         toTCP /= 1000.0f;
-- 
2.43.0


From 5838b539a0e38d94eee03e3cfdb7bfc17efd374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 094/111] fix: CoMConstraint::updateTarget did not change the
 target that is checked and optimized

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From 83ee3d520ca6397fe379d5e634a675cf1b86f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 095/111] fix: BalanceConstraint optimized the centre of mass
 of the joints instead of the bodies

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 9a4bb52..1a65510 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -218,7 +218,7 @@ float BalanceConstraint::getDifferentiableStabilityIndex()
     }
 
     MathTools::ConvexHull2DPtr ch = supportPolygon->getSupportPolygon2D();
-    Eigen::Vector2f com2D = rns->getCoM().head(2);
+    Eigen::Vector2f com2D = bodies->getCoM().head(2);
 
     if (!ch || ch->vertices.size() < 2 || !MathTools::isInside(com2D, ch))
     {
@@ -246,7 +246,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
@@ -262,7 +262,7 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
-- 
2.43.0


From 1be91a29eef44f23a8234d1a15637d41a29fc4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:33 +0000
Subject: [PATCH 096/111] fix: RobotNodeSet returned joint values and a centre
 of mass from the middle of an update

---
 VirtualRobot/RobotNodeSet.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 37554ec..1443aba 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -342,12 +342,17 @@ namespace VirtualRobot
 
     void RobotNodeSet::getJointValues(std::vector<float>& fillVector) const
     {
+        // the values have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         fillVector.resize(robotNodes.size());
         std::transform(robotNodes.begin(), robotNodes.end(), fillVector.begin(), boost::mem_fn(&RobotNode::getJointValue));
     }
 
     void RobotNodeSet::getJointValues(Eigen::VectorXf& fillVector) const
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         fillVector.resize(robotNodes.size());
 
         for (size_t i = 0; i < robotNodes.size(); i++)
@@ -360,6 +365,8 @@ namespace VirtualRobot
     void RobotNodeSet::getJointValues(RobotConfigPtr fillVector) const
     {
         THROW_VR_EXCEPTION_IF(!fillVector, "NULL data");
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
 
         for (const auto & robotNode : robotNodes)
         {
@@ -369,6 +376,8 @@ namespace VirtualRobot
 
     std::map<std::string, float> RobotNodeSet::getJointValueMap() const
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         std::map<std::string, float> res;
         for (auto n: robotNodes)
         {
@@ -579,6 +588,8 @@ namespace VirtualRobot
 
     Eigen::Vector3f RobotNodeSet::getCoM()
     {
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
         Eigen::Vector3f res;
         res.setZero();
 
-- 
2.43.0


From 5bc37e4b3e67a0965435ccb7780e7dd88b9538cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 097/111] fix: Robot::getConfig and the centre of mass of a
 robot mixed states of a concurrent update

---
 VirtualRobot/Robot.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index cef8fa1..07f8888 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -694,12 +694,14 @@ namespace VirtualRobot
 
     Eigen::Vector3f Robot::getCoMLocal()
     {
+        ReadLock lock(mutex, use_mutex);
         Eigen::Vector3f com = getCoMGlobal();
         return toLocalCoordinateSystemVec(com);
     }
 
     Eigen::Vector3f Robot::getCoMGlobal()
     {
+        ReadLock lock(mutex, use_mutex);
         Eigen::Vector3f res;
         res.setZero();
 
@@ -924,6 +926,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotConfigPtr Robot::getConfig()
     {
+        ReadLock lock(mutex, use_mutex);
         RobotConfigPtr r(new RobotConfig(shared_from_this(), getName()));
 
         std::vector<RobotNodePtr> robotNodes = this->getRobotNodes();
-- 
2.43.0


From 34d15fbdd3b774138295754cbf3ca7472a74a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 098/111] fix: a copy of a robot mixed states of a concurrent
 update

---
 VirtualRobot/Robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 07f8888..29dcf8b 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -765,6 +765,9 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!hasRobotNode(startJoint), " StartJoint '" + startJoint->getName() + "' is not part of this robot '" + getName() + "'");
         THROW_VR_EXCEPTION_IF(scaling <= 0, " Scaling must be >0.");
 
+        // poses and joint values of the copy have to belong to one state
+        ReadLock lock(mutex, use_mutex);
+
         CollisionCheckerPtr colChecker = collisionChecker;
 
         if (!colChecker)
@@ -892,6 +895,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotPtr Robot::clone(const std::string& name, CollisionCheckerPtr collisionChecker, float scaling)
     {
+        ReadLock lock(mutex, use_mutex);
         VirtualRobot::RobotPtr result = extractSubPart(this->getRootNode(), this->getType(), name, true, true, collisionChecker, scaling);
         result->setGlobalPose(getGlobalPose());
         result->filename = filename;
-- 
2.43.0


From 13481a95b608540e28c2045e3a28c1498c0a5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 099/111] fix: placing a robot by one of its nodes lost
 concurrent updates

---
 VirtualRobot/Robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 29dcf8b..9593efa 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -844,6 +844,7 @@ namespace VirtualRobot
             const RobotNodePtr& node, const Eigen::Matrix4f& globalPoseNode) const
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
+        ReadLock lock(mutex, use_mutex);
         
         if (math::Helpers::Orientation(globalPoseNode).isIdentity()
                 && math::Helpers::Orientation(node->getGlobalPose()).isIdentity())
@@ -869,6 +870,7 @@ namespace VirtualRobot
             const RobotNodePtr& node, const Eigen::Matrix4f& globalPoseNode)
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
+        WriteLock lock(mutex, use_mutex);
         
         setGlobalPose(getGlobalPoseForRobotNode(node, globalPoseNode));
     }
@@ -876,6 +878,7 @@ namespace VirtualRobot
     Eigen::Matrix4f Robot::getGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode) const
     {
+        ReadLock lock(mutex, use_mutex);
         // get translation from current to wanted tcp pose
         const Eigen::Vector3f translation = globalPositionNode - node->getGlobalPosition();
 
@@ -889,6 +892,7 @@ namespace VirtualRobot
     void Robot::setGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode)
     {
+        WriteLock lock(mutex, use_mutex);
         setGlobalPose(getGlobalPositionForRobotNode(node, globalPositionNode));
     }
     
-- 
2.43.0


From 7126891783d6d5e75e0e97cb93a089fd49e53426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 100/111] fix: joint axes in the frame of another robot could
 deadlock two threads

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 8 +++++++-
 VirtualRobot/Nodes/RobotNodeRevolute.cpp  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index 9197bf6..b3f2259 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -199,6 +199,12 @@ namespace VirtualRobot
 
     Eigen::Vector3f RobotNodePrismatic::getJointTranslationDirection(const SceneObjectPtr coordSystem) const
     {
+        // The pose of another robot is read before this one is locked: with both locked, two threads
+        // that ask the other way round would wait for each other.
+        RobotNodePtr coordNode = boost::dynamic_pointer_cast<RobotNode>(coordSystem);
+        const bool foreign = (coordNode && coordNode->getRobot() != getRobot())
+                             || (boost::dynamic_pointer_cast<Robot>(coordSystem) && coordSystem != getRobot());
+        Eigen::Matrix4f coordPose = foreign ? coordSystem->getGlobalPose() : Eigen::Matrix4f(Eigen::Matrix4f::Identity());
         ReadLockPtr lock = getRobot()->getReadLock();
         Eigen::Vector4f result4f = Eigen::Vector4f::Zero();
         result4f.segment(0, 3) = jointTranslationDirection;
@@ -207,7 +213,7 @@ namespace VirtualRobot
 
         if (coordSystem)
         {
-            result4f = coordSystem->getGlobalPose().inverse() * result4f;
+            result4f = (foreign ? coordPose : coordSystem->getGlobalPose()).inverse() * result4f;
         }
 
         return result4f.segment(0, 3);
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index d2e3a16..89d89a3 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -153,6 +153,12 @@ namespace VirtualRobot
 
     Eigen::Vector3f RobotNodeRevolute::getJointRotationAxis(const SceneObjectPtr coordSystem) const
     {
+        // The pose of another robot is read before this one is locked: with both locked, two threads
+        // that ask the other way round would wait for each other.
+        RobotNodePtr coordNode = boost::dynamic_pointer_cast<RobotNode>(coordSystem);
+        const bool foreign = (coordNode && coordNode->getRobot() != getRobot())
+                             || (boost::dynamic_pointer_cast<Robot>(coordSystem) && coordSystem != getRobot());
+        Eigen::Matrix4f coordPose = foreign ? coordSystem->getGlobalPose() : Eigen::Matrix4f(Eigen::Matrix4f::Identity());
         ReadLockPtr lock = getRobot()->getReadLock();
         Eigen::Vector4f result4f = Eigen::Vector4f::Zero();
         result4f.segment(0, 3) = jointRotationAxis;
@@ -161,7 +167,7 @@ namespace VirtualRobot
         if (coordSystem)
         {
             //res = coordSystem->toLocalCoordinateSystem(res);
-            result4f = coordSystem->getGlobalPose().inverse() * result4f;
+            result4f = (foreign ? coordPose : coordSystem->getGlobalPose()).inverse() * result4f;
         }
 
         return result4f.block(0, 0, 3, 1);
-- 
2.43.0


From 47c7f00f83c8c816cda0eea4f2b929049ef0b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 101/111] fix: saving a robot lost the tool points of preshapes

---
 VirtualRobot/EndEffector/EndEffector.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/EndEffector/EndEffector.cpp b/VirtualRobot/EndEffector/EndEffector.cpp
index b2b45c6..da52d7b 100644
--- a/VirtualRobot/EndEffector/EndEffector.cpp
+++ b/VirtualRobot/EndEffector/EndEffector.cpp
@@ -586,7 +586,14 @@ namespace VirtualRobot
 
         while (itPre != preshapes.end())
         {
-            ss << tt << "<Preshape name='" << itPre->first << "'>" << endl;
+            ss << tt << "<Preshape name='" << itPre->first << "'";
+
+            if (itPre->second->hasTCP())
+            {
+                ss << " tcp='" << itPre->second->getTCP()->getName() << "'";
+            }
+
+            ss << ">" << endl;
             std::map < std::string, float > jv = itPre->second->getRobotNodeJointValueMap();
 
             std::map< std::string, float >::const_iterator i = jv.begin();
-- 
2.43.0


From 217fcdfeb002bb6d7e797f0ccdd48daa54b3d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 102/111] fix: planning grasps without a time limit created
 none

---
 GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
index 2ef3d9d..0002fae 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
@@ -306,8 +306,8 @@ namespace GraspStudio
 
     bool GenericGraspPlanner::timeout()
     {
-        return timeOutDuration.count() <= 0
-               || std::chrono::system_clock::now() > (startTime + timeOutDuration);
+        return timeOutDuration.count() > 0
+               && std::chrono::system_clock::now() > (startTime + timeOutDuration);
     }
 
 } // namespace
-- 
2.43.0


From 6bb7bb003876e9aa3b268470fbb5f8be55a1d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 103/111] fix: faces were never sampled by their area

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index d5264e9..a9720eb 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -30,6 +30,7 @@ namespace GraspStudio
         {
             std::vector<float> areas = objectModel->getFaceAreas();
             distribFaceAreas = std::discrete_distribution<std::size_t>(areas.begin(), areas.end());
+            useFaceAreasDistrib = true;
         }
     }
 
-- 
2.43.0


From f248c897b6088c1d77c5c4bbc7db29ec6393d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 104/111] fix: retreating from the object checked the wrong
 hand for collisions

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index a9720eb..f9c1e73 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -104,7 +104,7 @@ namespace GraspStudio
             Eigen::Vector3f delta = approachDir * distance;
             updateEEFPose(delta);
 
-            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef->createSceneObjectSet()))
+            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef_cloned->createSceneObjectSet()))
             {
                 poseB = getEEFPose();
             } // else remain at original pose
-- 
2.43.0


From 869d28e134f4e387a44c7d14db45dbf588ef54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 105/111] fix: approach movements ignored the pose of the
 object

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index f9c1e73..a4f9576 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -66,6 +66,11 @@ namespace GraspStudio
             std::cout << "Normal in trimesh not normalized!";
             storeApproachDir.normalize();
         }
+
+        // the mesh is given in the coordinate system of the object
+        const Eigen::Matrix4f objectPose = object->getGlobalPose();
+        storePos = MathTools::transformPosition(storePos, objectPose);
+        storeApproachDir = objectPose.block<3, 3>(0, 0) * storeApproachDir;
         
         return true;
     }
-- 
2.43.0


From b08d4063d616807005ddcc760544f2f7c74dc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 106/111] fix: moving a hand whose preshape has its own tool
 point made it jump

---
 GraspPlanning/ApproachMovementGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ApproachMovementGenerator.cpp b/GraspPlanning/ApproachMovementGenerator.cpp
index 3d5093a..b744c68 100644
--- a/GraspPlanning/ApproachMovementGenerator.cpp
+++ b/GraspPlanning/ApproachMovementGenerator.cpp
@@ -67,14 +67,14 @@ namespace GraspStudio
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Vector3f& deltaPosition)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         math::Helpers::Position(pose) += deltaPosition;
         return setEEFPose(pose);
     }
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Matrix4f& deltaPose)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         pose = deltaPose * pose;
         return setEEFPose(pose);
     }
-- 
2.43.0


From f4479c6dbab5e48c13ef8a3374ff50b1c486a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 107/111] fix: friction cones were too wide for friction
 coefficients below one

---
 GraspPlanning/ContactConeGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ContactConeGenerator.cpp b/GraspPlanning/ContactConeGenerator.cpp
index 31e84c3..2e6bef5 100644
--- a/GraspPlanning/ContactConeGenerator.cpp
+++ b/GraspPlanning/ContactConeGenerator.cpp
@@ -39,8 +39,8 @@ namespace GraspStudio
         for (int i = 0; i < frictionConeSamples; i++)
         {
             Eigen::Vector3f p;
-            p(0) = unitForce * (float)(cos(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
-            p(1) = unitForce * (float)(cos(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
+            p(0) = unitForce * (float)(sin(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
+            p(1) = unitForce * (float)(sin(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
             p(2) = (float)frictionConeHeight;
             frictionConeRimPoints.push_back(p);
         }
-- 
2.43.0


From 3f79b64fadfef01cfe120a68e265550837728ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 108/111] fix: grasp quality measures ignored contacts given as
 points

---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From 4b069110df8fe55473e092770285300236780028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 109/111] fix: a grasp without contacts kept the quality of the
 previous one

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f4408..ab32ec9 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -46,12 +46,14 @@ namespace GraspStudio
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
     void GraspQualityMeasureWrenchSpace::setContactPoints(const VirtualRobot::EndEffector::ContactInfoVector& contactPoints)
     {
         GraspQualityMeasure::setContactPoints(contactPoints);
         GWSCalculated = false;
+        convexHullGWS.reset();
     }
 
 
-- 
2.43.0


From 71732ebb2f7de231f568526c149ba76ef8644270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 110/111] fix: grasps with too few wrenches for a hull counted
 as force closure

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index ab32ec9..478e5ec 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -376,7 +376,7 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpace::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
-- 
2.43.0


From e49c9097fe6516b18327980948f5b6dd4a70b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 111/111] fix: copies of a model shared its primitives, so that
 scaling or re-rooting a robot got lost or changed the original

---
 VirtualRobot/Primitive.cpp                    | 24 +++++++++++++++++++
 VirtualRobot/Primitive.h                      |  6 +++++
 VirtualRobot/RobotFactory.cpp                 |  5 ++--
 .../CoinVisualizationNode.cpp                 |  6 ++++-
 .../Visualization/VisualizationNode.cpp       |  8 +++++--
 5 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Primitive.cpp b/VirtualRobot/Primitive.cpp
index 4470226..957e4d0 100644
--- a/VirtualRobot/Primitive.cpp
+++ b/VirtualRobot/Primitive.cpp
@@ -39,6 +39,15 @@ namespace VirtualRobot
             return result.str();
         }
 
+        template <typename T>
+        static PrimitivePtr copyOf(const T& resized, const Primitive& original, float scaling)
+        {
+            boost::shared_ptr<T> result(new T(resized));
+            result->transform = original.transform;
+            result->transform.block(0, 3, 3, 1) *= scaling;
+            return result;
+        }
+
         //derivate functions
         std::string Box::toXMLString(int tabs)
         {
@@ -64,5 +73,20 @@ namespace VirtualRobot
                        tabs);
         }
 
+        boost::shared_ptr<Primitive> Box::clone(float scaling) const
+        {
+            return copyOf(Box(scaling * width, scaling * height, scaling * depth), *this, scaling);
+        }
+
+        boost::shared_ptr<Primitive> Sphere::clone(float scaling) const
+        {
+            return copyOf(Sphere(scaling * radius), *this, scaling);
+        }
+
+        boost::shared_ptr<Primitive> Cylinder::clone(float scaling) const
+        {
+            return copyOf(Cylinder(scaling * radius, scaling * height), *this, scaling);
+        }
+
     } //namespace Primitive
 } //namespace VirtualRobot
diff --git a/VirtualRobot/Primitive.h b/VirtualRobot/Primitive.h
index 53097a7..3f5dd7b 100644
--- a/VirtualRobot/Primitive.h
+++ b/VirtualRobot/Primitive.h
@@ -19,6 +19,9 @@ namespace VirtualRobot
 
             virtual std::string toXMLString(int tabs) = 0;
 
+            //! A copy of this primitive that shares nothing with it. \p scaling is applied to its size and its position.
+            virtual boost::shared_ptr<Primitive> clone(float scaling = 1.0f) const = 0;
+
         protected:
             Primitive(int type) : type(type), transform(Eigen::Matrix4f::Identity()) {}
             std::string getTransformString(int tabs = 0);
@@ -37,6 +40,7 @@ namespace VirtualRobot
             float height;
             float depth;
             std::string toXMLString(int tabs = 0) override;
+            boost::shared_ptr<Primitive> clone(float scaling = 1.0f) const override;
         };
 
         class VIRTUAL_ROBOT_IMPORT_EXPORT Sphere : public Primitive
@@ -47,6 +51,7 @@ namespace VirtualRobot
             Sphere(float radius) : Primitive(TYPE), radius(radius) {}
             float radius;
             std::string toXMLString(int tabs = 0) override;
+            boost::shared_ptr<Primitive> clone(float scaling = 1.0f) const override;
         };
 
         class VIRTUAL_ROBOT_IMPORT_EXPORT Cylinder : public Primitive
@@ -58,6 +63,7 @@ namespace VirtualRobot
             float radius;
             float height;
             std::string toXMLString(int tabs = 0) override;
+            boost::shared_ptr<Primitive> clone(float scaling = 1.0f) const override;
         };
 
         typedef boost::shared_ptr<Primitive> PrimitivePtr;
diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 7e7b78d..e5324f7 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -445,14 +445,15 @@ namespace VirtualRobot
                         //tr2.block(0, 3, 3, 1) *= 0.001f; // m is needed here?
                         vf->applyDisplacement(v, tr2);
                         v->createTriMeshModel(); // update trimesh model
-                        c->setVisualization(v);
-                        colMap[parent] = c;
 
                         for (auto & primitive : v->primitives)
                         {
                             primitive->transform = tr * primitive->transform;
                         }
 
+                        c->setVisualization(v);
+                        colMap[parent] = c;
+
                     }
 
                     // exchange physics
diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index 256773d..c7ea41a 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -360,7 +360,11 @@ namespace VirtualRobot
             i++;
         }
 
-        p->primitives = primitives;
+        // the copy has primitives of its own
+        for (const auto& primitive : primitives)
+        {
+            p->primitives.push_back(primitive->clone(scaling));
+        }
 
         return p;
     }
diff --git a/VirtualRobot/Visualization/VisualizationNode.cpp b/VirtualRobot/Visualization/VisualizationNode.cpp
index 97a25ce..2580bdf 100644
--- a/VirtualRobot/Visualization/VisualizationNode.cpp
+++ b/VirtualRobot/Visualization/VisualizationNode.cpp
@@ -31,12 +31,16 @@ namespace VirtualRobot
         attachedVisualizations.clear();
     }
 
-    VirtualRobot::VisualizationNodePtr VisualizationNode::clone(bool /*deepCopy*/, float /*scaling*/)
+    VirtualRobot::VisualizationNodePtr VisualizationNode::clone(bool /*deepCopy*/, float scaling)
     {
         VisualizationNodePtr p(new VisualizationNode());
         p->setUpdateVisualization(updateVisualization);
         p->setFilename(filename, boundingBox);
-        p->primitives = primitives;
+
+        for (const auto& primitive : primitives)
+        {
+            p->primitives.push_back(primitive->clone(scaling));
+        }
 
         return p;
     }
-- 
2.43.0

