// Projection of robots to the variables of spec/Robots.tla
#pragma once
#include "drv.h"
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Primitive.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/KinematicChain.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/RobotNodeFixed.h>
#include <VirtualRobot/Nodes/Sensor.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <algorithm>

namespace proj
{
    using namespace VirtualRobot;
    using namespace drv;

    inline bool rev(const RobotNodePtr& n) { return n->isRotationalJoint(); }
    inline bool pris(const RobotNodePtr& n) { return n->isTranslationalJoint(); }
    // value of a joint in the unit of the specification: degrees or millimetres
    inline double toSpec(const RobotNodePtr& n, double v) { return rev(n) ? deg(v) : v; }
    inline float fromSpec(const RobotNodePtr& n, double v) { return rev(n) ? (float)rad(v) : (float)v; }
    inline J jq(const RobotNodePtr& n, double v) { return jI(toSpec(n, v), 0.02); }
    inline std::string nm(const SceneObjectPtr& o) { return o ? o->getName() : std::string(""); }

    inline Eigen::Vector3f axisOf(const RobotNodePtr& n)
    {
        if (auto r = boost::dynamic_pointer_cast<RobotNodeRevolute>(n)) return r->getJointRotationAxisInJointCoordSystem();
        if (auto p = boost::dynamic_pointer_cast<RobotNodePrismatic>(n)) return p->getJointTranslationDirectionJointCoordSystem();
        return Eigen::Vector3f::Zero();
    }

    // parent pose * fixed transformation * joint motion, from the node's own reported data
    inline Eigen::Matrix4f expectedPose(const RobotPtr& r, const RobotNodePtr& n)
    {
        Eigen::Matrix4d par;
        RobotNodePtr p = boost::dynamic_pointer_cast<RobotNode>(n->getParent());
        par = (p ? p->getGlobalPose() : r->getGlobalPose()).cast<double>();
        Eigen::Matrix4d loc = n->getLocalTransformation().cast<double>();
        Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
        double v = n->getJointValue() + n->getJointValueOffset();
        Eigen::Vector3d ax = axisOf(n).cast<double>();
        if (rev(n)) m.block<3, 3>(0, 0) = Eigen::AngleAxisd(v, ax.normalized()).toRotationMatrix();
        else if (pris(n)) m.block<3, 1>(0, 3) = v * ax;
        return (par * loc * m).cast<float>();
    }

    inline J phys(const SceneObjectPtr& n)
    {
        SceneObject::Physics p = n->getPhysics();
        Obj o;
        o.set("m", jI(p.massKg * 1000.0, 0.6));
        o.set("com", vec3(n->getCoMLocal()));
        Arr in;
        for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) in.add(jI(p.inertiaMatrix(i, k) * 1000.0, 0.6));
        o.set("in", in);
        o.set("sim", p.getString(p.simType));
        o.set("fr", jI(p.friction * 1000.0));
        std::vector<std::string> ig = p.ignoreCollisions;
        std::sort(ig.begin(), ig.end());
        Arr a;
        for (auto& s : ig) a.add(s);
        o.set("ign", a);
        return o;
    }

    // the primitives a model was made of describe its mesh
    inline bool described(const VisualizationNodePtr& v)
    {
        if (!v || v->primitives.empty()) return true;
        TriMeshModelPtr m = v->getTriMeshModel();
        if (!m || m->vertices.empty()) return false;
        Eigen::Vector3f lo[2], hi[2];
        for (int k : {0, 1}) { lo[k].setConstant(1e9f); hi[k].setConstant(-1e9f); }
        for (auto& x : m->vertices) { lo[0] = lo[0].cwiseMin(x); hi[0] = hi[0].cwiseMax(x); }
        for (auto& p : v->primitives)
        {
            auto b = boost::dynamic_pointer_cast<Primitive::Box>(p);
            if (!b) return true;
            for (int c = 0; c < 8; c++)
            {
                Eigen::Vector4f x(b->width * ((c & 1) - .5f), b->height * (((c >> 1) & 1) - .5f), b->depth * (((c >> 2) & 1) - .5f), 1);
                Eigen::Vector3f y = (p->transform * x).head(3); lo[1] = lo[1].cwiseMin(y); hi[1] = hi[1].cwiseMax(y);
            }
        }
        return (lo[0] - lo[1]).cwiseAbs().maxCoeff() < 0.3f && (hi[0] - hi[1]).cwiseAbs().maxCoeff() < 0.3f;
    }

    inline J nodeStatic(const RobotNodePtr& n)
    {
        Obj o;
        RobotNodePtr par = boost::dynamic_pointer_cast<RobotNode>(n->getParent());
        o.set("par", nm(par));
        o.set("typ", rev(n) ? "rev" : pris(n) ? "pris" : "fixed");
        Eigen::Vector3f ax = axisOf(n);
        o.set("ax", vec3(ax, 1e-3));
        if (rev(n) || pris(n))
        {
            o.set("lo", jq(n, n->getJointLimitLo())).set("hi", jq(n, n->getJointLimitHi()));
            // the alternative accessors must agree
            o.set("lim2", n->getJointLimitLow() == n->getJointLimitLo() && n->getJointLimitHigh() == n->getJointLimitHi());
        }
        else o.set("lo", 0).set("hi", 0).set("lim2", true);
        o.set("free", n->isLimitless());
        o.set("enf", n->getEnforceJointLimits());
        o.set("off", jq(n, n->getJointValueOffset()));
        o.set("loc", pose(n->getLocalTransformation()));
        o.set("va", Arr().add(jI(n->getMaxVelocity() * 1000.0, 0.6)).add(jI(n->getMaxAcceleration() * 1000.0, 0.6)).add(jI(n->getMaxTorque() * 1000.0, 0.6)));
        o.set("ph", phys(n));
        Obj s;
        std::map<std::string, SensorPtr> ss;
        for (auto& x : n->getSensors()) ss[x->getName()] = x;
        for (auto& x : ss)
            s.set(x.first, pose(boost::dynamic_pointer_cast<Sensor>(x.second) ? x.second->getRobotNodeToSensorTransformation() : Eigen::Matrix4f::Identity()));
        o.set("sens", ss.empty() ? J::raw("{\"_\":0}") : (J)s);
        // a model counts when its primitives describe its mesh
        o.set("vis", (bool)n->getVisualization() && described(n->getVisualization()))
         .set("col", (bool)n->getCollisionModel() && described(n->getCollisionModel()->getVisualization()));
        return o;
    }

    inline J rnsStatic(const RobotNodeSetPtr& s)
    {
        Arr a;
        for (auto& n : s->getAllRobotNodes()) a.add(nm(n));
        return Obj().set("nodes", a).set("root", nm(s->getKinematicRoot())).set("tcp", nm(s->getTCP()))
               .set("chain", s->getSize() == 0 ? false : s->isKinematicChain());
    }

    inline J configMap(const RobotConfigPtr& c, const RobotPtr& r)
    {
        Obj o; bool any = false;
        for (auto& kv : c->getRobotNodeJointValueMap())
        {
            RobotNodePtr n = r->getRobotNode(kv.first);
            o.set(kv.first, n ? jq(n, kv.second) : J(BAD)); any = true;
        }
        return any ? (J)o : J::raw("{\"_\":0}");
    }

    inline J eefStatic(const EndEffectorPtr& e, const RobotPtr& r)
    {
        Obj o;
        o.set("base", e->getBaseNodeName()).set("tcp", e->getTcpName()).set("gcp", nm(e->getGCP()));
        std::vector<RobotNodePtr> st; e->getStatics(st);
        std::vector<std::string> sn; for (auto& n : st) sn.push_back(n->getName());
        std::sort(sn.begin(), sn.end());
        Arr a; for (auto& s : sn) a.add(s);
        o.set("stat", a);
        std::vector<EndEffectorActorPtr> ac; e->getActors(ac);
        std::map<std::string, EndEffectorActorPtr> am; for (auto& x : ac) am[x->getName()] = x;
        Obj oa;
        for (auto& x : am)
        {
            Arr d;
            for (auto& def : x.second->getDefinition())
                d.add(Arr().add(nm(def.robotNode)).add(jI(def.directionAndSpeed * 1000.0)).add((int)def.colMode));
            oa.set(x.first, d);
        }
        o.set("act", am.empty() ? J::raw("{\"_\":0}") : (J)oa);
        Obj op; std::vector<std::string> pn = e->getPreshapes(); std::sort(pn.begin(), pn.end());
        for (auto& p : pn) op.set(p, configMap(e->getPreshape(p), r));
        o.set("pre", pn.empty() ? J::raw("{\"_\":0}") : (J)op);
        Obj ot; for (auto& p : pn) ot.set(p, nm(e->getPreshape(p)->getTCP()));
        o.set("ptcp", pn.empty() ? J::raw("{\"_\":0}") : (J)ot);
        return o;
    }

    // everything that can be reached from a robot must belong to it
    inline bool closed(const RobotPtr& r)
    {
        std::set<SceneObject*> own;
        for (auto& n : r->getRobotNodes())
        {
            own.insert(n.get());
            if (n->getRobot() != r) return false;
            if (r->getRobotNode(n->getName()) != n) return false;
            for (auto& s : n->getSensors())
                if (s->getRobotNode() != n || !n->hasSensor(s->getName()) || n->getSensor(s->getName()) != s || !r->getSensor(s->getName())) return false;
            if (n->hasSensor("no such sensor")) return false;
        }
        for (auto& n : r->getRobotNodes())
        {
            if (n == r->getRootNode()) continue;
            RobotNodePtr p = boost::dynamic_pointer_cast<RobotNode>(n->getParent());
            if (!p || !own.count(p.get())) return false;
            if (!p->hasChild(boost::static_pointer_cast<SceneObject>(n))) return false;
        }
        auto in = [&](const RobotNodePtr & n) { return !n || own.count(n.get()) > 0; };
        for (auto& s : r->getRobotNodeSets())
        {
            for (auto& n : s->getAllRobotNodes()) if (!in(n)) return false;
            if (!in(s->getTCP()) || !in(s->getKinematicRoot()) || s->getRobot() != r) return false;
        }
        for (auto& e : r->getEndEffectors())
        {
            if (!in(e->getTcp()) || !in(e->getBase()) || !in(e->getGCP())) return false;
            for (auto& n : e->getAllNodes()) if (!in(n)) return false;
            if (e->getRobot() && e->getRobot() != r) return false;
            for (auto& p : e->getPreshapes())
            {
                RobotConfigPtr c = e->getPreshape(p);
                if (c->getRobot() != r) return false;
                for (auto& n : c->getNodes()) if (!in(n)) return false;
                if (!in(c->getTCP())) return false;
            }
        }
        return true;
    }

    inline J robotStatic(const RobotPtr& r)
    {
        Obj o;
        o.set("name", r->getName()).set("type", r->getType()).set("root", nm(r->getRootNode()));
        o.set("scal", jI(r->getScaling() * 1000.0));
        Obj n;
        for (auto& x : r->getRobotNodes()) n.set(x->getName(), nodeStatic(x));
        o.set("nodes", n);
        Obj s; auto sets = r->getRobotNodeSets();
        for (auto& x : sets) s.set(x->getName(), rnsStatic(x));
        o.set("rns", sets.empty() ? J::raw("{\"_\":0}") : (J)s);
        Obj e; auto eefs = r->getEndEffectors();
        for (auto& x : eefs) e.set(x->getName(), eefStatic(x, r));
        o.set("eef", eefs.empty() ? J::raw("{\"_\":0}") : (J)e);
        o.set("closed", closed(r));
        return o;
    }

    inline J nodeDyn(const RobotPtr& r, const RobotNodePtr& n)
    {
        Obj o;
        bool joint = rev(n) || pris(n);
        o.set("q", joint ? jq(n, n->getJointValue()) : J(0));
        Eigen::Matrix4f g = n->getGlobalPose();
        o.set("p", onLattice(g) ? pose(g) : (J)Arr());
        // deviation from the kinematic equation, from the other accessors, from the root-frame pose, of the sensors
        int res = residual(g, expectedPose(r, n));
        Eigen::Vector3f gp = n->getGlobalPosition();
        Eigen::Matrix3f go = n->getGlobalOrientation();
        Eigen::Matrix4f g2 = Eigen::Matrix4f::Identity(); g2.block<3, 3>(0, 0) = go; g2.block<3, 1>(0, 3) = gp;
        res = std::max(res, residual(g, g2));
        o.set("r", res);
        Eigen::Matrix4d rootInv = r->getRootNode()->getGlobalPose().cast<double>().inverse();
        Eigen::Matrix4f inRoot = (rootInv * g.cast<double>()).cast<float>();
        int rr = residual(n->getPoseInRootFrame(), inRoot);
        Eigen::Matrix4f r2 = Eigen::Matrix4f::Identity();
        r2.block<3, 3>(0, 0) = n->getOrientationInRootFrame(); r2.block<3, 1>(0, 3) = n->getPositionInRootFrame();
        rr = std::max(rr, residual(r2, inRoot));
        Eigen::Vector3f lp(3, -5, 7);
        rr = std::max(rr, (n->getPositionInRootFrame(lp) - (inRoot * lp.homogeneous()).head<3>()).norm() > 0.1 ? 9 : 0);
        rr = std::max(rr, (n->getDirectionInRootFrame(lp) - inRoot.block<3, 3>(0, 0) * lp).norm() > 0.1 ? 9 : 0);
        o.set("rr", rr);
        int sr = 0;
        {
            // the robot pose that puts the node at a position: it keeps the orientation, and the node follows rigidly
            Eigen::Vector3f target(40, -30, 20);
            Eigen::Matrix4d want = r->getGlobalPose().cast<double>();
            want.block<3, 1>(0, 3) += (target - gp).cast<double>();
            sr = std::max(sr, residual(r->getGlobalPositionForRobotNode(n, target), want.cast<float>()));
        }
        for (auto& s : n->getSensors())
            sr = std::max(sr, residual(s->getGlobalPose(), (g.cast<double>() * s->getRobotNodeToSensorTransformation().cast<double>()).cast<float>()));
        o.set("sr", sr);
        VisualizationNodePtr v = n->getVisualization();
        CollisionModelPtr c = n->getCollisionModel();
        o.set("v", v ? (onLattice(v->getGlobalPose()) ? pose(v->getGlobalPose()) : (J)Arr()) : (J)Arr());
        o.set("c", c ? (onLattice(c->getGlobalPose()) ? pose(c->getGlobalPose()) : (J)Arr()) : (J)Arr());
        // deviation between the models' poses and the node pose (0 when they coincide)
        o.set("vr", v ? residual(v->getGlobalPose(), g) : 0);
        o.set("cr", c ? residual(c->getGlobalPose(), g) : 0);
        return o;
    }

    inline J robotDyn(const RobotPtr& r)
    {
        Obj o;
        Eigen::Matrix4f g = r->getGlobalPose();
        o.set("pose", onLattice(g) ? pose(g) : (J)Arr());
        Obj n;
        for (auto& x : r->getRobotNodes()) n.set(x->getName(), nodeDyn(r, x));
        o.set("n", n);
        return o;
    }
}
