#!/usr/bin/env python3
"""Single source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Forward kinematics stays consistent after any history",
 "After any sequence of joint updates (single joint, map, node set, configuration, trajectory), root-pose changes and TCP-placement calls, every robot node's reported global pose equals its parent's pose composed with its fixed transformation and its joint motion (rotation about, or translation along, the declared axis by value plus offset). "
 "Poses expressed in the root frame or in another node's frame, the poses of the attached sensors and, while visualization/collision-model updating is enabled (or after it is re-enabled and applied), the poses of visualization and collision models agree with it. "
 "Placing the robot so that a given node reaches a target pose makes exactly that node pose equal the target.",
 ["histories", "inputs"], "every kinematic tree of fixed/revolute/prismatic nodes, every history of pose/joint updates through every setter",
 "Tests load two or three robots and look at a single pose after one update; the guarantee is over all trees and all interleavings of setters, update flags and root motions.",
 ["VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/RobotNodeRevolute.cpp", "VirtualRobot/Nodes/RobotNodePrismatic.cpp", "VirtualRobot/Nodes/RobotNodeFixed.cpp", "VirtualRobot/Nodes/Sensor.cpp", "VirtualRobot/SceneObject.cpp"],
 [("updatePose / updateTransformationMatrices recursion", "RobotNode.cpp, RobotNodeRevolute.cpp, RobotNodePrismatic.cpp"), ("applyJointValues, setGlobalPose, setGlobalPoseForRobotNode", "Robot.cpp")],
 ["RobotNode::getGlobalPose", "VisualizationNode::getGlobalPose", "CollisionModel::getGlobalPose", "SceneObject::toLocalCoordinateSystem", "RobotNode::getPoseInRootFrame"])

prop("C02", "Joint values are clamped, wrapped and propagated",
 "A joint value written through any setter reads back as the value clamped to the joint's limits, or, for a limitless joint, as the equivalent angle wrapped into its limit interval (limits changed later take effect at the next write). "
 "A joint that propagates to others drives each of them to factor times its own value (clamped to the target's own limits) through whichever setter it was moved, directly and along chains of propagation. "
 "Limit queries agree with the stored limits, and the signed difference to a target angle of a limitless joint is the shortest one.",
 ["histories", "inputs"], "every joint value (inside, at and beyond limits, several turns away), every limit interval, every setter and propagation structure",
 "Tests set a handful of in-range values; clamping, wrapping and propagation depend on the value, the limits and the setter used.",
 ["VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp"],
 [("setJointValueNotInitialized / setJointValueNoUpdate, respectJointLimits, getDelta, propagateJointValue", "RobotNode.cpp")],
 ["RobotNode::getJointValue", "RobotNode::respectJointLimits", "RobotNode::checkJointLimits", "RobotNode::getDelta"])

prop("C03", "Attached objects form a tree and follow their parent",
 "Attaching and detaching scene objects keeps the graph a forest: an object has at most one parent, is listed exactly once among that parent's children, can never become its own ancestor, and a refused attach or detach changes nothing. "
 "Attaching and detaching never move an object; a scene object attached to another one takes over its pose whenever the parent is updated, while sensors and objects attached to a robot through the robot factory keep a constant transformation to their node. Attaching is refused for the object itself, for an object that has a parent, below its own descendant, and next to a child of the same name. "
 "A detached object no longer moves with its former parent and can be moved freely, while an attached one cannot be repositioned independently.",
 ["histories"], "every history of attach, detach, move and delete over scene objects and robot nodes",
 "No test detaches, re-attaches or chains objects; the guarantee is about arbitrary attach/detach/move histories.",
 ["VirtualRobot/SceneObject.cpp", "VirtualRobot/RobotFactory.cpp", "VirtualRobot/Nodes/RobotNode.cpp"],
 [("attachChild/detachChild/attached/detachedFromParent/updatePose", "SceneObject.cpp")],
 ["SceneObject::getParent", "SceneObject::getChildren", "SceneObject::hasChild", "SceneObject::getGlobalPose"])

prop("C04", "A cloned robot is a faithful, independent copy",
 "Cloning a robot or extracting a sub-part yields a robot with the same kinematic structure, joint limits, offsets, dynamics limits, propagation factors, physics data, sensors, node sets and end effectors (restricted to the part), at the same joint values (within the limits) and pose; a scaling factor scales exactly the lengths (transformations, centres of mass and models, not joint values and limits). Node sets are restricted to those that lie within the part with their tool point and kinematic root. "
 "The copy is independent: no later change of either robot (joint values, poses, limits, attached or removed elements) is visible in the other, and all elements of the copy refer to the copy only.",
 ["histories", "configurations"], "every robot structure, every sub-part root, every scaling, and every interleaving of changes to original and copies",
 "Tests clone one robot file and compare a few names; faithfulness is over all structures, independence over all later histories.",
 ["VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/SceneObject.cpp"],
 [("Robot::clone / extractSubPart, RobotNode::clone, RobotNodeSet::clone, EndEffector::clone", "Robot.cpp, RobotNode.cpp, RobotNodeSet.cpp, EndEffector.cpp")],
 ["Robot API of original and copy"])

prop("C05", "Robot files describe the robot that is loaded, and saving preserves it",
 "Loading a robot description yields exactly the described robot: transformations, joint types, axes, limits, offsets, velocity, acceleration and torque limits, propagation, masses, node sets and end effectors, with declared units converted to the internal ones. "
 "Saving a robot and loading the result yields a robot with the same description (structure, transformations, joint types, axes, limits, offsets, dynamics limits, propagation, physics, sensors, node sets, end effectors); joint values and the robot's pose are state, not description.",
 ["inputs", "configurations"], "every robot description: structures, units, optional elements present or absent",
 "Tests load a few fixed files; unit handling and optional elements multiply into combinations the tests never load.",
 ["VirtualRobot/XML/RobotIO.cpp", "VirtualRobot/XML/BaseIO.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/Robot.cpp"],
 [("processRobotNode/processJointNode/processLimitsNode/processMaxVelocityNode", "RobotIO.cpp, BaseIO.cpp"), ("toXML of robot, nodes, sets, end effectors", "Robot.cpp, RobotNode*.cpp, RobotNodeSet.cpp, EndEffector.cpp")],
 ["RobotIO::createRobotFromString", "RobotIO::saveXML", "Robot::toXML"])

prop("C06", "A scene is a faithful registry of robots, objects and configurations",
 "A scene holds exactly the robots, obstacles, manipulation objects, trajectories, object sets and robot configurations registered and not yet removed: lookups by name return the registered element, a second element of the same kind and name is ignored, and removing one element removes nothing else than what belongs to it. "
 "Saving a scene and loading it again yields the same elements at the same poses, with the same configurations (and current joint values), trajectories of its robots and sets of its objects.",
 ["histories", "configurations"], "every history of register/deregister/lookup calls and every resulting scene content",
 "Scene tests parse a few literal strings and never deregister or round-trip.",
 ["VirtualRobot/Scene.cpp", "VirtualRobot/XML/SceneIO.cpp", "VirtualRobot/SceneObjectSet.cpp"],
 [("register*/deRegister*/has*/get*", "Scene.cpp"), ("processScene / getXMLString", "SceneIO.cpp, Scene.cpp")],
 ["Scene API", "SceneIO::createSceneFromString", "Scene::getXMLString"])

prop("C07", "A robot configuration stores and applies exactly its joint values",
 "A robot configuration maps distinct joints of its robot to values: the last value written for a joint is the value it holds, writes to joints outside the configuration or robot are refused, and a stored value respects the joint limits after the configuration is applied. "
 "Applying a configuration moves exactly the joints it contains and leaves every other joint unchanged; cloning it to another robot and saving/loading it preserve names, values and the tool point.",
 ["histories", "inputs"], "every history of set/get/apply/clone on configurations over every subset of joints",
 "Tests build one configuration and compare one value.",
 ["VirtualRobot/RobotConfig.cpp", "VirtualRobot/Robot.cpp"],
 [("setConfig/setJointValues/applyToRobot/clone/toXML", "RobotConfig.cpp")],
 ["RobotConfig API", "RobotNode::getJointValue"])

prop("C08", "Node sets address their joints in order and describe the true structure",
 "Reading or writing joint values through a node set addresses exactly its nodes in their declared order; a vector of the wrong length is refused without moving the robot, and joints outside the set keep their values. "
 "Structural queries (membership, index, kinematic chain, tool point, kinematic root, mutability) agree with the declared list and the kinematic tree, and registering (a later set replaces one of the same name) or removing node sets in a robot keeps the name lookup exact.",
 ["histories", "inputs"], "every ordered subset of nodes of every kinematic tree and every history of set/get/register calls",
 "Tests use one or two node sets of fixed robots and in-order chains only.",
 ["VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/SceneObjectSet.cpp"],
 [("setJointValues/getJointValues/checkKinematicChain/isKinematicRoot", "RobotNodeSet.cpp")],
 ["RobotNodeSet API", "Robot::getRobotNodeSet"])

prop("C09", "Collision verdicts equal geometric intersection for every overload",
 "For models whose meshes are known, a collision query between two models, sets, robots or obstacles reports a collision exactly when the surfaces of some pair of their collision models (inflated by the set margin, which counts from the original model) intersect at the poses the models were last updated to, whichever overload is used and in either argument order; the reported distance is the minimum over the pairs, and for separate models the witness points lie on the models and that far apart; a point is in collision within a tolerance exactly when it is that near. "
 "A collision manager checks every added set or object against every other one and the explicitly added pairs, and nothing else: it reports a collision, or the minimal distance, of exactly those pairs, after any history of additions, set changes and movements; copies of models collide like the original at their own pose.",
 ["histories", "inputs"], "every arrangement of boxes, every grouping into sets/robots/obstacles, every history of moves and pair registrations",
 "Tests query two boxes at three poses; sets, robots, pair bookkeeping, enabling and model movement are not varied.",
 ["VirtualRobot/CollisionDetection/CDManager.cpp", "VirtualRobot/CollisionDetection/CollisionChecker.cpp", "VirtualRobot/CollisionDetection/CollisionModel.cpp", "VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp"],
 [("checkCollision / calculateDistance overloads", "CollisionChecker.cpp"), ("addCollisionModel/addCollisionModelPair/isInCollision/getDistance", "CDManager.cpp")],
 ["CollisionChecker API", "CDManager API"])

prop("C10", "Search-tree nodes keep identity, links and configurations",
 "Nodes handed out by a configuration space are never handed out again while in use, keep their configuration and identifier, and return to the pool when released; the space never exceeds its capacity. "
 "A search tree is acyclic with valid parent links, contains exactly the nodes appended and not removed, its nearest-neighbour query returns a node of minimal (unweighted) distance, a leaf that is removed is forgotten and released, resetting a tree forgets its nodes while resetting the space releases all, and solution extraction returns the parent chain from the queried node to the tree's root.",
 ["histories", "inputs"], "every history of node creation, appending, removal, reset and query",
 "Tests create a space and check a few distances; pool reuse, removal and reset histories are not exercised.",
 ["MotionPlanning/CSpace/CSpace.cpp", "MotionPlanning/CSpace/CSpaceTree.cpp"],
 [("createNode/removeNode/reset", "CSpace.cpp"), ("appendNode/appendPath/removeNode/getNearestNeighborID/createPath", "CSpaceTree.cpp")],
 ["CSpace::createNode", "CSpaceTree API"])

prop("C11", "A reported plan is a collision-free path from start to goal",
 "Whenever a planner reports success, its solution starts exactly at the start configuration, ends exactly at the goal, stays inside the configuration-space boundaries, and every segment is collision-free and constraint-satisfying at the checking resolution; when it reports failure or was stopped it provides no solution. "
 "Planning with an invalid start or goal is refused, a search tree of a planner consists of valid ways from its root, planning never takes more cycles than allowed, and a planning run leaves the robot's update settings as it found them and can be repeated after a reset.",
 ["inputs", "histories", "configurations"], "every obstacle layout, start/goal pair, extension mode, sampling and metric setting, random seed and repeated run",
 "No existing test runs a planner.",
 ["MotionPlanning/Planner/Rrt.cpp", "MotionPlanning/Planner/BiRrt.cpp", "MotionPlanning/Planner/MotionPlanner.cpp", "MotionPlanning/CSpace/CSpaceSampled.cpp", "MotionPlanning/CSpace/CSpace.cpp"],
 [("Rrt::plan/extend/connectComplete/createSolution", "Rrt.cpp"), ("BiRrt::plan/createSolution", "BiRrt.cpp"), ("isPathValid/isConfigValid/createPath", "CSpaceSampled.cpp, CSpace.cpp")],
 ["MotionPlanner::plan", "MotionPlanner::getSolution"])

prop("C12", "Paths and trajectories preserve their points under every edit",
 "A configuration path or joint trajectory is the sequence of points produced by its edits: appending, inserting, erasing, replacing and reversing affect exactly the addressed positions, out-of-range positions are refused without effect, and clones and sub-paths hold copies of the addressed points. "
 "Length, time and interpolation agree with that sequence: length is the sum of the segment distances in the metric asked for, interpolation of a path with points returns the first point at 0, the last at 1, moves monotonically along the path, and reports the segment it lies on.",
 ["histories", "inputs"], "every sequence of edits and every interpolation parameter",
 "Tests build one three-point trajectory and query few parameters.",
 ["MotionPlanning/CSpace/CSpacePath.cpp", "VirtualRobot/Trajectory.cpp"],
 [("addPoint/insertPoint/erasePosition/insertTrajectory/reverse/createSubPath/interpolate/getLength", "CSpacePath.cpp, Trajectory.cpp")],
 ["CSpacePath API", "Trajectory API"])

prop("C13", "Path post-processing keeps plans valid",
 "A post-processed path has the same start and goal as the input path. Shortcut processing and pruning never make the path longer, pruning keeps a subsequence of the points that cannot be pruned further, and if the input was collision-free at the checking resolution so is their output. "
 "The input path is never modified, and stopping the processing early or processing degenerate paths yields a valid path as well.",
 ["inputs", "configurations"], "every valid input path, obstacle layout, number of optimization steps and random seed",
 "One test shortens a single path.",
 ["MotionPlanning/PostProcessing/ShortcutProcessor.cpp", "MotionPlanning/PostProcessing/ElasticBandProcessor.cpp", "MotionPlanning/PostProcessing/PathProcessor.cpp"],
 [("shortenSolutionRandom/doPathPruning/selectCandidatesRandom", "ShortcutProcessor.cpp"), ("optimize/elasticBandStep", "ElasticBandProcessor.cpp")],
 ["PathProcessor::optimize", "PathProcessor::getOptimizedPath"])

prop("C14", "End-effector actors close until contact and reopen",
 "Closing an end effector moves every actor monotonically in its closing direction until it touches the object or another actor or reaches its limit, never leaves a reported-stopped actor able to move freely, never ends in penetration with the object, and reports exactly the contacts that stopped actors. "
 "Opening moves actors the opposite way to their limits; preshapes set exactly their joints, and nothing but the effector's actuated joints moves.",
 ["histories", "inputs", "configurations"], "every object placement, actor definition, step size and open/close/preshape history",
 "No test closes a hand.",
 ["VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/EndEffector/EndEffectorActor.cpp"],
 [("closeActors/openActors/setPreshape", "EndEffector.cpp"), ("moveActor/moveActorCheckCollision", "EndEffectorActor.cpp")],
 ["EndEffector API", "RobotNode::getJointValue"])

prop("C15", "Grasps are kept per object and transform poses consistently",
 "A manipulation object holds exactly the grasps and grasp sets added and not removed, a grasp is contained in a set at most once, look-ups by name and by robot/end effector return exactly the matching ones, and copies are deep. "
 "For every grasp the tool pose derived from an object pose and the object pose derived from a tool pose are inverse to each other and equal the stored transformation composed with the given pose; saving and loading an object preserves all grasps, sets and preshapes (robot type and end effector of a grasp are those of its set).",
 ["histories", "inputs"], "every history of grasp and grasp-set edits, every grasp transformation and object pose",
 "Only XML parsing of one object is tested.",
 ["VirtualRobot/Grasping/Grasp.cpp", "VirtualRobot/Grasping/GraspSet.cpp", "VirtualRobot/ManipulationObject.cpp", "VirtualRobot/XML/ObjectIO.cpp"],
 [("addGrasp/removeGrasp/includeGraspSet/addGraspSet/getGraspSet", "GraspSet.cpp, ManipulationObject.cpp"), ("getTcpPoseGlobal/getTargetPoseRelative/getObjectTargetPoseGlobal/setTransformation", "Grasp.cpp")],
 ["GraspSet/ManipulationObject/Grasp API", "ObjectIO::createManipulationObjectFromString"])

prop("C16", "Workspace data reports exactly the recorded entries",
 "A workspace representation answers every query (covered, entry value, maximum, summed and projected counts) exactly as the record of poses added, set or erased so far implies, where a pose clearly outside the declared boundaries (by half a voxel or more) changes nothing and poses in one voxel are equivalent. "
 "Saving and loading (for every orientation type), cloning and the streams used for it reproduce the same answers, and the workspace shares no mutable data with its clone. Grids of base positions count and return exactly the entries and grasps put into each cell, also when grids are merged.",
 ["histories", "inputs"], "every history of add/set/erase/query/save/load/clone operations on every grid",
 "Tests add one or two poses to one grid and query them.",
 ["VirtualRobot/Workspace/WorkspaceRepresentation.cpp", "VirtualRobot/Workspace/WorkspaceDataArray.cpp", "VirtualRobot/Workspace/WorkspaceGrid.cpp", "VirtualRobot/Compression/CompressionBZip2.cpp"],
 [("setDatum/increaseDatum/get/sumAngleReachabilities/getMaxEntry", "WorkspaceDataArray.cpp"), ("addPose/getEntry/isCovered/save/load/clone/getVoxelFromPose", "WorkspaceRepresentation.cpp")],
 ["WorkspaceRepresentation API", "WorkspaceData API"])

prop("C17", "Concurrent access to a robot never observes a half-updated state",
 "When several threads read and write one robot (with its locking enabled), every reader sees node poses that belong to one set of joint values and one root pose: no lookup returns the middle of an update, whichever setter or getter overloads run concurrently. "
 "Every lock taken is released, also on errors, so that no schedule leads to a deadlock or a lost update.",
 ["schedules"], "every interleaving of reading and writing threads over all public setters and getters that take part in locking",
 "A stress test starts threads and checks nothing but absence of crashes in the schedules that happen to occur.",
 ["VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/ConditionedLock.h", "VirtualRobot/SceneObject.cpp"],
 [("ReadLock/WriteLock at Robot and RobotNode entry points", "Robot.cpp, RobotNode.cpp")],
 ["RobotNode::getGlobalPose/getJointValue under concurrent setJointValues/setGlobalPose"])

prop("C18", "Background planning and processing threads honour start and stop",
 "A background planning or path-processing run can be started only when none is running, ends in a terminal state, and after stopping or waiting is no longer running; a stop that waits, issued at any time after start, ends the run, as does an interrupt without waiting once the run is under way. "
 "The result offered afterwards is the result of the run (a valid solution on success, none after an abort before success), and running flags never contradict the thread's state.",
 ["schedules", "histories"], "every interleaving of start/stop/query calls with the worker thread's steps",
 "No test uses the background threads.",
 ["MotionPlanning/Planner/PlanningThread.cpp", "MotionPlanning/PostProcessing/PathProcessingThread.cpp", "MotionPlanning/Planner/MotionPlanner.cpp"],
 [("start/stop/isRunning/startPlanning/workingMethod", "PlanningThread.cpp, PathProcessingThread.cpp")],
 ["PlanningThread API", "PathProcessingThread API"])

prop("C19", "A physics world tracks exactly the registered objects and robots",
 "A dynamics world contains exactly the objects and robots added and not yet removed - their bodies, and the constraints that link the bodies of a robot and the objects attached to it, are exactly those the physics engine simulates - and a second addition, a second robot for the same model and the removal of an unknown element have no effect. "
 "Collision switches between objects, and for single objects, hold exactly as last set, are symmetric, do not outlive the physics object, and decide, together with the overlap of the bodies, which contacts are reported. "
 "Setting the pose or position of a physics object or robot puts body and scene object at that place, a floor lies where it was asked for, a step advances the simulated time and calls the registered callbacks once per internal step, moves nothing that is at rest, and joint targets and actuation modes are those last set.",
 ["histories"], "every history of add/remove/attach/detach/collision-switch/pose/actuation/step calls",
 "No test uses the physics world.",
 ["SimDynamics/DynamicsWorld.cpp", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp"],
 [("addObject/removeObject/addRobot/removeRobot/disableCollision/enableCollision/checkCollisionEnabled", "DynamicsEngine.cpp, BulletEngine.cpp")],
 ["DynamicsEngine API"])

prop("C20", "Model restructuring preserves geometry",
 "Re-rooting a robot at another node, fusing a set of nodes, splitting it into units or building a robot from a structure description keeps, for every joint configuration reachable in both, the relative poses of all retained nodes (a reversed joint is represented by the frame before its motion), their joint limits, the node sets of retained nodes, and the masses and centres of mass. "
 "The original robot is left unchanged.",
 ["inputs", "configurations"], "every robot tree, every choice of new root or retained nodes, every joint configuration",
 "No test calls the restructuring functions.",
 ["VirtualRobot/RobotFactory.cpp"],
 [("clone/cloneInversed/cloneChangeStructure/cloneSubSet/cloneUniteSubsets", "RobotFactory.cpp")],
 ["RobotFactory API", "RobotNode::getGlobalPose"])

prop("C21", "Data files resolve by the declared search order",
 "A file name that exists as given (absolute, or relative to the working directory) resolves to that file, any other relative name to the first registered data path under which the file exists, and a file found nowhere is reported as not found with the name unchanged; adding a data path affects only later resolutions that earlier paths do not satisfy. "
 "Making a path relative to a base and absolute again yields the same file, and processed command-line arguments yield exactly the given keys and values.",
 ["histories", "inputs"], "every history of registered paths and existing files, every relative/absolute name",
 "Tests only read a fixed data directory.",
 ["VirtualRobot/RuntimeEnvironment.cpp", "VirtualRobot/XML/BaseIO.cpp"],
 [("getDataFileAbsolute/addDataPath/processCommandLine/getValue", "RuntimeEnvironment.cpp"), ("makeRelativePath/makeAbsolutePath", "BaseIO.cpp")],
 ["RuntimeEnvironment API"])

prop("C22", "An inverse-kinematics success is a true solution",
 "Whenever an IK solver reports success, the joint values left in (or returned for) the robot lie within the joint limits and the tool points reach their targets within the requested tolerances for the requested target components; a solver that reports failure leaves all joints outside its node set untouched. "
 "Jacobians and the centre of mass used for it equal the true derivative and the mass-weighted mean for every configuration.",
 ["inputs", "configurations"], "every chain, target pose, tolerance, cartesian selection and start configuration",
 "Tests compare Jacobians for one arm and solve a gaze problem.",
 ["VirtualRobot/IK/DifferentialIK.cpp", "VirtualRobot/IK/GenericIKSolver.cpp", "VirtualRobot/IK/JacobiProvider.cpp", "VirtualRobot/IK/CoMIK.cpp", "VirtualRobot/Robot.cpp"],
 [("solveIK/checkTolerances/getJacobianMatrix", "DifferentialIK.cpp, GenericIKSolver.cpp, CoMIK.cpp")],
 ["DifferentialIK::solveIK", "GenericIKSolver::solve", "Robot::getCoMGlobal"])

prop("C23", "Grasp planning adds exactly the collision-free grasps that were asked for",
 "Every approach pose lies on the surface of the object with the hand turned against the surface normal and the requested distance or preshape applied, for every pose of the object and every choice of faces, and moving the hand onto a pose puts its grasp centre there whatever frames, preshapes and tool points it has; a retreat ends free of collisions with the object or reports failure. "
 "A planning run stores exactly the grasps it reports, never more than asked for, with or without a time limit, each in the object's own frame, rated at least at the minimal quality and with force closure if that was demanded; neither other grasps of the object nor the robot the hand was taken from change.",
 ["inputs", "histories"], "every hand, preshape, object geometry and pose, minimal quality, number of grasps and history of approach, move, retreat and planning calls",
 "No test plans a grasp or generates an approach movement.",
 ["GraspPlanning/ApproachMovementGenerator.cpp", "GraspPlanning/ApproachMovementSurfaceNormal.cpp", "GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp", "GraspPlanning/GraspPlanner/GraspPlanner.cpp"],
 [("createNewApproachPose/setEEFPose/updateEEFPose/setEEFToApproachPose/moveEEFAway", "ApproachMovementGenerator.cpp, ApproachMovementSurfaceNormal.cpp"), ("plan/planGrasp/timeout", "GenericGraspPlanner.cpp")],
 ["ApproachMovementGenerator API", "GenericGraspPlanner::plan", "GraspSet API"])

prop("C24", "Hulls, friction cones and grasp quality follow their definitions",
 "The convex hull of a set of points is exactly the boundary of their hull: its corners are given points, every facet keeps all points on its inner side with its normal outward, the facets close, and volume, centre and distances are those of that body; points without volume have none. "
 "The friction cone of a contact consists of evenly spread unit forces at exactly the friction angle to the normal, and a contact's wrench is its force with its torque about the given centre. "
 "The quality of a grasp is derived from the hull of the wrenches of its current contacts alone: all wrenches lie in that hull, force closure holds exactly when the origin lies inside, the quality relates the smallest distance of its facets to that of the object, more contacts never lose force closure, and the verdict depends neither on earlier contacts, the order or form in which they were given, nor on the pose of the object.",
 ["inputs", "histories"], "every set of points, contacts, friction coefficient and number of cone samples, every history of contact sets given to a measure",
 "No test computes a hull, a cone or a grasp quality.",
 ["GraspPlanning/ConvexHullGenerator.cpp", "GraspPlanning/ContactConeGenerator.cpp", "GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp", "GraspPlanning/GraspQuality/GraspQualityMeasure.cpp", "VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp"],
 [("CreateConvexHull/calculateVolume/computeCenter", "ConvexHullGenerator.cpp"), ("computeConePoints", "ContactConeGenerator.cpp"), ("createWrenchPoints/calculateGraspQuality/isGraspForceClosure", "GraspQualityMeasureWrenchSpace.cpp")],
 ["ConvexHullGenerator API", "ContactConeGenerator API", "GraspQualityMeasureWrenchSpace API"])

prop("C25", "A linked coordinate keeps denoting its pose in every frame",
 "A linked coordinate holds exactly the frame and the pose (or position, then without rotation) it was last given; the pose it denotes moves with that frame and with nothing else. "
 "Changing its frame re-expresses the coordinate without moving it, whatever the joint values and the pose of the robot, asking for it in another frame changes nothing and answers the same pose, and the transformation between two nodes is that of their current global poses. "
 "Copies and assigned coordinates are independent and belong to the robot of their origin; a frame that is not a node of that robot is refused and leaves the coordinate as it was.",
 ["histories", "inputs"], "every robot, every history of setting, re-expressing, copying and moving the robot, by node or by name",
 "The test builds one coordinate in one robot position; the guarantee is over all histories of frame changes, copies and robot motions.",
 ["VirtualRobot/LinkedCoordinate.cpp", "VirtualRobot/LinkedCoordinate.h", "VirtualRobot/Robot.cpp"],
 [("set/changeFrame/getInFrame/getCoordinateTransformation", "LinkedCoordinate.cpp"), ("hasRobotNode", "Robot.cpp")],
 ["LinkedCoordinate API"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
