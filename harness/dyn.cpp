// Driver for the physics world (C19).
#include "drv.h"
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <SimDynamics/DynamicsWorld.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletObject.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.h>
using namespace VirtualRobot;
using namespace SimDynamics;
using namespace drv;

static std::map<std::string, SceneObjectPtr> S;            // scene objects
static std::map<std::string, DynamicsObjectPtr> D;         // physics objects, "w/node" for those of robots, "F1" ... floors
static std::map<DynamicsObject*, std::string> Id;
static std::map<std::string, RobotPtr> R;
static std::map<std::string, DynamicsRobotPtr> W;
static std::vector<int> calls;
static bool wantSt = false;
static int floors = 0;

static BulletEnginePtr engine() { BulletEnginePtr e = boost::dynamic_pointer_cast<BulletEngine>(DynamicsWorld::GetWorld()->getEngine()); if (!e) throw std::logic_error("script: no engine"); return e; }
static DynamicsObjectPtr obj(const std::string& k) { if (!D.count(k)) throw std::logic_error("script: no object " + k); return D[k]; }
static DynamicsRobotPtr wrap(const std::string& k) { if (!W.count(k)) throw std::logic_error("script: no robot " + k); return W[k]; }
static std::string idOf(const void* p) { if (!p) return "null"; auto it = Id.find((DynamicsObject*)p); return it == Id.end() ? std::string("?") : it->second; }
static std::string idBody(const btCollisionObject* b) { return b->getUserPointer() ? idOf(static_cast<DynamicsObject*>(static_cast<BulletObject*>(b->getUserPointer()))) : "null"; }
static void callback(void* d, btScalar) { calls.push_back((int)(size_t)d); }
static Eigen::Matrix4f shifted(const DynamicsObjectPtr& o, const Eigen::Matrix4f& m)
{
    Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
    t.block<3, 1>(0, 3) = -o->getSceneObject()->getCoMLocal();
    return m * t;
}
// 12 integers or, when it is somewhere else, none
static J where(const Eigen::Matrix4f& m)
{
    Arr a;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) if (I(m(r, c), c < 3 ? 4e-3 : 0.3) == BAD) return a;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) a.add(jI(m(r, c), 4e-3));
    for (int r = 0; r < 3; r++) a.add(jI(m(r, 3), 0.3));
    return a;
}
static J list(std::vector<std::string> v) { Arr a; for (auto& x : v) a.add(x); return a; }
static J pairsJ(std::vector<std::pair<std::string, std::string>> v)
{
    for (auto& p : v) if (p.second < p.first) std::swap(p.first, p.second);
    std::sort(v.begin(), v.end());
    Arr a; for (auto& p : v) a.add(Arr().add(p.first).add(p.second)); return a;
}

OP("reset")
{
    W.clear(); D.clear(); Id.clear(); R.clear(); S.clear(); calls.clear(); floors = 0;
    DynamicsWorld::Close();
    DynamicsEngineConfigPtr c(new DynamicsEngineConfig()); c->gravity.setZero();
    DynamicsWorldPtr w = DynamicsWorld::Init(c);
    wantSt = true;
    return J(w && w == DynamicsWorld::GetWorld() && w == DynamicsWorld::Init());
}
OP("obj")
{
    std::string x = a.s(); Eigen::Matrix4f p = a.pose(); std::vector<double> h = a.nums(), c = a.nums(); int typ = a.n(); bool mesh = a.b();
    SceneObjectPtr o;
    VisualizationNodePtr v;
    VisualizationFactoryPtr vf = VisualizationFactory::first(NULL);
    if (mesh)
    {
        TriMeshModelPtr m(new TriMeshModel());
        auto corner = [&](int i, int j, int k) { return Eigen::Vector3f(i * h[0], j * h[1], k * h[2]); };
        auto quad = [&](Eigen::Vector3f p, Eigen::Vector3f q, Eigen::Vector3f s, Eigen::Vector3f t) { m->addTriangleWithFace(p, q, s); m->addTriangleWithFace(p, s, t); };
        for (int s = -1; s <= 1; s += 2)
        {
            quad(corner(s, -1, -1), corner(s, 1, -1), corner(s, 1, 1), corner(s, -1, 1));
            quad(corner(-1, s, -1), corner(1, s, -1), corner(1, s, 1), corner(-1, s, 1));
            quad(corner(-1, -1, s), corner(1, -1, s), corner(1, 1, s), corner(-1, 1, s));
        }
        Eigen::Matrix4f i = Eigen::Matrix4f::Identity();
        o.reset(new SceneObject(x, VisualizationNodePtr(), CollisionModelPtr(new CollisionModel(vf->createTriMeshModelVisualization(m, i), x))));
    }
    else
    {
        o = Obstacle::createBox(2 * h[0], 2 * h[1], 2 * h[2]);
        o->setName(x);
    }
    o->setMass(1.0f);
    o->setGlobalPose(p);
    if (!c.empty()) o->setCoMLocal(Eigen::Vector3f(c[0], c[1], c[2]));
    o->setSimulationType((SceneObject::Physics::SimulationType)typ);
    S[x] = o;
    D[x] = DynamicsWorld::CreateDynamicsObject(o);
    Id[D[x].get()] = x;
    wantSt = true;
    return J(D[x]->getSceneObject() == o && D[x]->getName() == x && D[x]->getSimType() == (SceneObject::Physics::SimulationType)typ);
}
// forget a physics object and make a new one for the same scene object
OP("renew")
{
    std::string x = a.s(); SceneObjectPtr o = obj(x)->getSceneObject();
    Id.erase(D[x].get()); D.erase(x);
    D[x] = DynamicsWorld::CreateDynamicsObject(o);
    Id[D[x].get()] = x;
    wantSt = true;
    return J(true);
}
OP("robot")
{
    std::string r = a.s(), f = a.s();
    R[r] = RobotIO::loadRobot(f, RobotIO::eFull);
    if (!R[r]) throw std::runtime_error("not loaded");
    for (auto& n : R[r]->getRobotNodes()) n->setSimulationType(SceneObject::Physics::eDynamic);
    return J(true);
}
OP("wrap")
{
    std::string w = a.s(), r = a.s();
    W[w] = DynamicsWorld::CreateDynamicsRobot(R.at(r));
    for (auto& n : R[r]->getRobotNodes())
    {
        DynamicsObjectPtr d = W[w]->getDynamicsRobotNode(n);
        if ((bool)d != W[w]->hasDynamicsRobotNode(n) || d != W[w]->getDynamicsRobotNode(n->getName())) return J("contradiction");
        if (!d) continue;
        D[w + "/" + n->getName()] = d; Id[d.get()] = w + "/" + n->getName();
        if (d->getSceneObject() != n) return J("wrong scene object");
    }
    wantSt = true;
    return J(W[w]->getRobot() == R[r] && W[w]->getName() == R[r]->getName());
}
OP("add") { wantSt = true; return J(DynamicsWorld::GetWorld()->addObject(obj(a.s()))); }
OP("rem") { wantSt = true; return J(DynamicsWorld::GetWorld()->removeObject(obj(a.s()))); }
OP("addr") { wantSt = true; return J(DynamicsWorld::GetWorld()->addRobot(wrap(a.s()))); }
OP("remr") { wantSt = true; return J(DynamicsWorld::GetWorld()->removeRobot(wrap(a.s()))); }
OP("floor")
{
    Eigen::Vector3f p = a.v3(), u = a.v3();
    DynamicsWorld::GetWorld()->createFloorPlane(p, u);
    DynamicsObjectPtr f = engine()->getFloor();
    std::string id = "F" + std::to_string(++floors);
    D[id] = f; Id[f.get()] = id;
    wantSt = true;
    Eigen::Vector3f fp, fu; double e, d; engine()->getFloorInfo(fp, fu, e, d);
    // the box of the floor in the world, in mm
    Eigen::Matrix4f m = f->getSceneObject()->getGlobalPose();
    BoundingBox b = f->getSceneObject()->getCollisionModel()->getBoundingBox(true);
    BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(f);
    btVector3 lo, hi; bo->getRigidBody()->getAabb(lo, hi);
    auto mm = [](const btVector3& v) { Arr l; for (int i = 0; i < 3; i++) l.add(I(v[i] * 1000 / BulletObject::ScaleFactor, 2)); return l; };
    return Obj().set("p", vec3(fp)).set("u", vec3(fu)).set("lo", vec3(b.getMin(), 3)).set("hi", vec3(b.getMax(), 3)).set("blo", mm(lo)).set("bhi", mm(hi));
}
OP("off") { std::string x = a.s(), y = a.s(); wantSt = true; engine()->disableCollision(obj(x).get(), obj(y).get()); return J(true); }
OP("on") { std::string x = a.s(), y = a.s(); wantSt = true; engine()->enableCollision(obj(x).get(), obj(y).get()); return J(true); }
OP("off1") { wantSt = true; engine()->disableCollision(obj(a.s()).get()); return J(true); }
OP("on1") { wantSt = true; engine()->enableCollision(obj(a.s()).get()); return J(true); }
OP("resetc") { wantSt = true; engine()->resetCollisions(obj(a.s()).get()); return J(true); }
OP("self") { std::string w = a.s(); wantSt = true; wrap(w)->enableSelfCollisions(a.b()); return J(true); }
OP("att")
{
    std::string w = a.s(), n = a.s(), x = a.s(); bool byName = a.b(); wantSt = true;
    return J(byName ? DynamicsWorld::GetWorld()->getEngine()->attachObjectToRobot(wrap(w)->getName(), n, obj(x)) : engine()->attachObjectToRobot(wrap(w), n, obj(x)));
}
OP("det")
{
    std::string w = a.s(), x = a.s(); bool byName = a.b(); wantSt = true;
    return J(byName ? DynamicsWorld::GetWorld()->getEngine()->detachObjectFromRobot(wrap(w)->getName(), obj(x)) : engine()->detachObjectFromRobot(wrap(w), obj(x)));
}
OP("pose") { DynamicsObjectPtr o = obj(a.s()); wantSt = true; o->setPose(a.pose()); return J(true); }
OP("pos") { DynamicsObjectPtr o = obj(a.s()); wantSt = true; o->setPosition(a.v3()); return J(true); }
OP("rpose") { DynamicsRobotPtr w = wrap(a.s()); wantSt = true; w->setGlobalPose(a.pose()); return J(true); }
OP("typ") { DynamicsObjectPtr o = obj(a.s()); wantSt = true; int t = a.n(); o->setSimType((SceneObject::Physics::SimulationType)t); return J((int)o->getSimType()); }
OP("still")
{
    DynamicsObjectPtr o = obj(a.s()); wantSt = true;
    o->setLinearVelocity(Eigen::Vector3f::Zero()); o->setAngularVelocity(Eigen::Vector3f::Zero());
    return J(o->getLinearVelocity().norm() == 0 && o->getAngularVelocity().norm() == 0);
}
OP("cb") { engine()->addExternalCallback(callback, (void*)(size_t)a.n()); return J(true); }
OP("step")
{
    int dt = a.n(), k = a.n(), f = a.n(); calls.clear(); wantSt = true;
    engine()->stepSimulation(dt / 1024.0, k, f / 1024.0);
    Arr c; for (int x : calls) c.add(x);
    return Obj().set("t", jI(engine()->getSimTime() * 1024)).set("c", c);
}
OP("hits")
{
    engine()->activateAllObjects();
    engine()->getBulletWorld()->performDiscreteCollisionDetection();
    std::set<std::pair<std::string, std::string>> s;
    for (auto& c : engine()->getContacts())
    {
        if (c.distance >= 0) continue;
        s.insert(c.objectAName < c.objectBName ? std::make_pair(c.objectAName, c.objectBName) : std::make_pair(c.objectBName, c.objectAName));
    }
    Arr l; for (auto& p : s) l.add(Arr().add(p.first).add(p.second));
    return l;
}
OP("getobj") { DynamicsObjectPtr o = engine()->getObject(a.s()); return J(o ? idOf(o.get()) : std::string("-")); }
OP("getrob")
{
    std::string r = a.s(); RobotPtr p = R.at(r);
    DynamicsRobotPtr x = engine()->getRobot(p), y = engine()->getRobot(p->getName());
    std::string k = "-";
    for (auto& w : W) if (w.second == x) k = w.first;
    return x == y ? J(k) : J("contradiction");
}
// actuation of joints; values in 1/1024
OP("act") { DynamicsRobotPtr w = wrap(a.s()); std::string n = a.s(); double v = a.n() / 1024.0; wantSt = true; if (a.b()) w->actuateNode(n, v); else w->actuateNode(w->getRobot()->getRobotNode(n), v); return J(true); }
OP("actpv") { DynamicsRobotPtr w = wrap(a.s()); std::string n = a.s(); double p = a.n() / 1024.0, v = a.n() / 1024.0; wantSt = true; w->actuateNode(w->getRobot()->getRobotNode(n), p, v); return J(true); }
OP("actv") { DynamicsRobotPtr w = wrap(a.s()); std::string n = a.s(); double v = a.n() / 1024.0; wantSt = true; if (a.b()) w->actuateNodeVel(n, v); else w->actuateNodeVel(w->getRobot()->getRobotNode(n), v); return J(true); }
OP("actt") { DynamicsRobotPtr w = wrap(a.s()); std::string n = a.s(); double v = a.n() / 1024.0; wantSt = true; if (a.b()) w->actuateNodeTorque(n, v); else w->actuateNodeTorque(w->getRobot()->getRobotNode(n), v); return J(true); }
OP("actno") { DynamicsRobotPtr w = wrap(a.s()); std::string n = a.s(); wantSt = true; w->disableNodeActuation(w->getRobot()->getRobotNode(n)); return J(true); }
OP("acton") { DynamicsRobotPtr w = wrap(a.s()); int m = a.n(); wantSt = true; ActuationMode am; am.modes.position = m & 1; am.modes.velocity = (m >> 1) & 1; am.modes.torque = (m >> 2) & 1; w->enableActuation(am); return J(true); }
OP("actoff") { wantSt = true; wrap(a.s())->disableActuation(); return J(true); }

static void project(const std::string&, Obj& o)
{
    if (!wantSt) return;
    wantSt = false;
    BulletEnginePtr e = engine();
    std::vector<std::string> all, free, robs, bodies, off1;
    for (auto& x : e->getObjects()) { std::string k = idOf(x.get()); all.push_back(k); if (k.find('/') == std::string::npos) free.push_back(k); }
    for (auto& x : e->getRobots()) { std::string k = "?"; for (auto& w : W) if (w.second == x) k = w.first; robs.push_back(k); }
    if (DynamicsWorld::GetWorld()->getRobots() != e->getRobots()) robs.push_back("contradiction");
    btDynamicsWorld* bw = e->getBulletWorld();
    for (int i = 0; i < bw->getNumCollisionObjects(); i++) bodies.push_back(idBody(bw->getCollisionObjectArray()[i]));
    std::sort(all.begin(), all.end()); std::sort(bodies.begin(), bodies.end());
    std::vector<std::pair<std::string, std::string>> con, off;
    for (int i = 0; i < bw->getNumConstraints(); i++) con.push_back(std::make_pair(idBody(&bw->getConstraint(i)->getRigidBodyA()), idBody(&bw->getConstraint(i)->getRigidBodyB())));
    Obj sc, bo;
    for (auto& x : D)
    {
        if (!e->checkCollisionEnabled(x.second.get())) off1.push_back(x.first);
        for (auto& y : D)
        {
            if (!(x.first < y.first)) continue;
            bool p = e->checkCollisionEnabled(x.second.get(), y.second.get()), q = e->checkCollisionEnabled(y.second.get(), x.second.get());
            if (p != q) off.push_back(std::make_pair("asymmetric " + x.first, y.first));
            else if (!p) off.push_back(std::make_pair(x.first, y.first));
        }
        BulletObjectPtr b = boost::dynamic_pointer_cast<BulletObject>(x.second);
        Eigen::Matrix4f s = x.second->getSceneObject()->getGlobalPose(), m = shifted(x.second, BulletEngine::getPoseEigen(b->getRigidBody()->getWorldTransform())), t = shifted(x.second, b->getComGlobal());
        if (x.first[0] == 'F') continue;
        sc.set(x.first, where(s));
        // the body and its motion state relative to the scene object: equal, or where they are
        bo.set(x.first, Obj().set("same", residual(s, m, 0.3, 4e-3) == 0).set("p", where(m)).set("mot", residual(s, t, 0.3, 4e-3) == 0));
    }
    Obj rp, act;
    sc.set("_", 0); bo.set("_", 0);
    for (auto& w : W)
    {
        RobotPtr r = w.second->getRobot();
        Obj l;
        for (auto& n : r->getRobotNodes())
            if (w.second->isNodeActuated(n) || w.second->getNodeTarget(n) != 0)
                l.set(n->getName(), Obj().set("on", w.second->isNodeActuated(n)).set("t", jI(w.second->getNodeTarget(n) * 1024)));
        l.set("_", 0);
        act.set(w.first, l);
    }
    for (auto& r : R) rp.set(r.first, where(r.second->getGlobalPose()));
    act.set("_", 0); rp.set("_", 0);
    o.set("st", Obj().set("obj", list(all)).set("free", list(free)).set("rob", list(robs)).set("body", list(bodies)).set("con", pairsJ(con)).set("off", pairsJ(off)).set("off1", list(off1))
          .set("sp", sc).set("bp", bo).set("rp", rp).set("act", act));
}

int main(int c, char** v) { projector() = project; return drv::main(c, v); }
