// Driver for scene objects (C03), scenes (C06) and grasps (C15).
#include "robproj.h"
#include <VirtualRobot/SceneObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
using namespace VirtualRobot;
using namespace drv;
using namespace proj;

static std::map<std::string, RobotPtr> robots;
static std::map<std::string, SceneObjectPtr> held;                    // handles of the test
static std::map<std::string, boost::weak_ptr<SceneObject>> elems;     // everything that was ever created
static bool forest = false;

static std::string idOf(const SceneObject* o)
{
    if (!o) return "";
    for (auto& e : elems) { SceneObjectPtr p = e.second.lock(); if (p && p.get() == o) return e.first; }
    return "?";
}
static SceneObjectPtr el(const std::string& id)
{
    auto i = elems.find(id);
    SceneObjectPtr p = i == elems.end() ? SceneObjectPtr() : i->second.lock();
    if (!p) throw std::logic_error("script: no element " + id);
    return p;
}
static SceneObjectPtr el(Args& a) { return el(a.s()); }
static RobotPtr rb(const std::string& id) { if (!robots.count(id)) throw std::logic_error("script: no robot " + id); return robots[id]; }

// ------------------------------------------------------------------ C03
static void noteRobot(const std::string& id)
{
    RobotPtr r = robots[id];
    elems[id] = r;
    for (auto& n : r->getRobotNodes())
    {
        elems[id + "/" + n->getName()] = n;
        for (auto& s : n->getSensors()) elems[id + "/" + n->getName() + "/" + s->getName()] = s;
    }
}
static J optPose(const Eigen::Matrix4f& m) { return onLattice(m) ? pose(m) : (J)Arr(); }
static J forestState()
{
    Obj all; all.set("_", 0);
    for (auto& e : elems)
    {
        SceneObjectPtr p = e.second.lock();
        if (!p) continue;
        Obj o;
        SceneObjectPtr par = p->getParent();
        std::string ps = idOf(par.get());
        RobotNodePtr rn = boost::dynamic_pointer_cast<RobotNode>(p);
        RobotPtr rr = boost::dynamic_pointer_cast<Robot>(p);
        if (rn && !par)      // the root is held by the robot without being told
            for (auto& r : robots) if (r.second && r.second->getRootNode() == rn) ps = r.first;
        o.set("par", ps);
        Arr c;
        for (auto& k : p->getChildren()) c.add(idOf(k.get()));
        o.set("ch", c);
        o.set("nm", p->getName());
        Eigen::Matrix4f g = p->getGlobalPose();
        o.set("gp", optPose(g));
        VisualizationNodePtr v = p->getVisualization();
        CollisionModelPtr cm = p->getCollisionModel();
        o.set("vp", v ? optPose(v->getGlobalPose()) : (J)Arr());
        o.set("cp", cm ? optPose(cm->getGlobalPose()) : (J)Arr());
        o.set("hp", p->hasParent());
        all.set(e.first, o);
    }
    return all;
}
OP("reset") { held.clear(); elems.clear(); robots.clear(); forest = false; extern void resetScene(); extern void resetGrasps(); extern void resetCol(); resetScene(); resetGrasps(); resetCol(); return J(true); }
OP("forest") { forest = true; return J(true); }
OP("robot")
{
    std::string id = a.s(), f = a.s();
    RobotPtr r = RobotIO::loadRobot(f, RobotIO::eFull);
    if (!r) throw std::runtime_error("no robot");
    r->setName(id);
    robots[id] = r;
    noteRobot(id);
    Obj o; o.set("_", 0);
    for (auto& n : r->getRobotNodes())
    {
        Obj d;
        d.set("typ", rev(n) ? "rev" : pris(n) ? "pris" : "fixed").set("ax", vec3(axisOf(n), 1e-3)).set("loc", pose(n->getLocalTransformation()));
        d.set("root", n == r->getRootNode());
        Obj ss; ss.set("_", 0);
        for (auto& s : n->getSensors()) ss.set(s->getName(), pose(s->getRobotNodeToSensorTransformation()));
        d.set("sens", ss);
        o.set(n->getName(), d);
    }
    return o;
}
static VisualizationNodePtr boxVis(float l)
{
    std::vector<Primitive::PrimitivePtr> p;
    p.push_back(Primitive::PrimitivePtr(new Primitive::Box(l, l, l)));
    return VisualizationFactory::first(NULL)->getVisualizationFromPrimitives(p);
}
OP("new")
{
    std::string id = a.s(), name = a.s(); int cls = a.n(); Eigen::Matrix4f p = a.pose();
    VisualizationNodePtr v = boxVis(20), w = boxVis(20);
    CollisionModelPtr c(new CollisionModel(w, name));
    SceneObjectPtr o;
    if (cls == 0) o.reset(new SceneObject(name, v, c)); else if (cls == 1) o.reset(new Obstacle(name, v, c)); else o.reset(new ManipulationObject(name, v, c));
    o->setGlobalPose(p);
    held[id] = o; elems[id] = o;
    return J(true);
}
OP("att") { SceneObjectPtr p = el(a), x = el(a); return J(p->attachChild(x)); }
OP("det") { SceneObjectPtr p = el(a), x = el(a); p->detachChild(x); return J(true); }
OP("move") { SceneObjectPtr x = el(a); x->setGlobalPose(a.pose()); return J(true); }
OP("up") { SceneObjectPtr x = el(a); x->updatePose(true); return J(true); }
OP("fq")
{
    RobotNodePtr n = boost::dynamic_pointer_cast<RobotNode>(el(a));
    n->setJointValue(fromSpec(n, a.d()));
    return J(true);
}
OP("rpose") { RobotPtr r = rb(a.s()); r->setGlobalPose(a.pose()); return J(true); }
OP("drop") { std::string id = a.s(); held.erase(id); return J(true); }
OP("oclonef") { SceneObjectPtr x = el(a); std::string id = a.s(), name = a.s(); SceneObjectPtr c = x->clone(name); held[id] = c; elems[id] = c; return J(true); }
OP("fatt")
{
    std::string r = a.s(); SceneObjectPtr n = el(a), x = el(a); Eigen::Matrix4f t = a.pose();
    bool ok = RobotFactory::attach(rb(r), x, boost::dynamic_pointer_cast<RobotNode>(n), t);
    if (ok) { RobotNodePtr k = rb(r)->getRobotNode(x->getName()); if (k) elems[r + "/" + x->getName()] = k; }
    return J(ok);
}
OP("fdet") { std::string r = a.s(); RobotNodePtr n = boost::dynamic_pointer_cast<RobotNode>(el(a)); bool b = RobotFactory::detach(rb(r), n); n.reset(); return J(b); }
OP("fname") { SceneObjectPtr x = el(a); x->setName(a.s()); return J(true); }
OP("hasch") { SceneObjectPtr p = el(a), x = el(a); bool rec = a.b(); return J(p->hasChild(x, rec)); }
OP("haschn") { SceneObjectPtr p = el(a); std::string n = a.s(); bool rec = a.b(); return J(p->hasChild(n, rec)); }
OP("fupv") { SceneObjectPtr x = el(a); x->setUpdateVisualization(a.b()); return J(true); }
OP("fupc") { SceneObjectPtr x = el(a); x->setUpdateCollisionModel(a.b()); return J(true); }
OP("robdel") { std::string id = a.s(); robots.erase(id); return J(true); }
OP("nodes") { RobotPtr r = rb(a.s()); std::vector<std::string> v; for (auto& n : r->getRobotNodes()) v.push_back(n->getName()); Arr o; for (auto& s : v) o.add(s); return o; }
OP("frames")
{
    // pose p given relative to x, as seen from the other objects
    SceneObjectPtr x = el(a), y = el(a); Eigen::Matrix4f p = a.pose(); Obj o;
    o.set("tg", optPose(x->toGlobalCoordinateSystem(p))).set("tl", optPose(x->toLocalCoordinateSystem(p)));
    o.set("to", optPose(x->transformTo(y, p))).set("tf", optPose(x->getTransformationTo(y))).set("ff", optPose(x->getTransformationFrom(y)));
    Eigen::Vector3f v = p.block<3, 1>(0, 3);
    o.set("vg", vec3(x->toGlobalCoordinateSystemVec(v))).set("vl", vec3(x->toLocalCoordinateSystemVec(v)));
    o.set("vo", vec3(x->transformTo(y, v)));
    return o;
}

// ------------------------------------------------------------------ C06
struct Sc
{
    ScenePtr s;
    std::map<std::string, ObstaclePtr> ob; std::map<std::string, ManipulationObjectPtr> mo; std::map<std::string, RobotConfigPtr> cf;
    std::map<std::string, TrajectoryPtr> tr; std::map<std::string, SceneObjectSetPtr> se;
};
static Sc sc;
void resetScene() { sc = Sc(); }
template <class T> static std::string idIn(const std::map<std::string, T>& m, const T& x) { if (!x) return ""; for (auto& e : m) if (e.second == x) return e.first; return "?"; }
template <class T> static T need(std::map<std::string, T>& m, const std::string& k) { if (!m.count(k)) throw std::logic_error("script: no element " + k); return m[k]; }
static std::map<std::string, double> nummap(Args& a) { std::map<std::string, double> m; int k = a.n(); while (k-- > 0) { std::string s = a.s(); m[s] = a.d(); } return m; }
static std::string opt(const std::string& s) { return s == "-" ? std::string() : s; }

OP("scene") { std::string n = opt(a.s()); sc.s.reset(new Scene(n)); return J(true); }
OP("srob")
{
    std::string id = a.s(), f = a.s(), nm_ = a.s();
    RobotPtr r = RobotIO::loadRobot(f, RobotIO::eFull);
    if (!r) throw std::runtime_error("no robot");
    r->setName(nm_);
    robots[id] = r;
    Obj q; q.set("_", 0);
    for (auto& n : r->getRobotNodes()) if (rev(n) || pris(n)) q.set(n->getName(), jq(n, n->getJointValue()));
    return Obj().set("type", r->getType()).set("q", q).set("pose", pose(r->getGlobalPose()));
}
OP("sq") { RobotPtr r = rb(a.s()); auto m = nummap(a); std::map<std::string, float> v; for (auto& k : m) { RobotNodePtr n = r->getRobotNode(k.first); v[k.first] = fromSpec(n, k.second); } r->setJointValues(v); return J(true); }
OP("spose") { RobotPtr r = rb(a.s()); r->setGlobalPose(a.pose()); return J(true); }
OP("sobst")
{
    std::string id = a.s(), n = a.s(); double l = a.d(); double kg = a.d(); Eigen::Matrix4f p = a.pose(); int how = a.n();
    VisualizationNodePtr v = boxVis(l);
    CollisionModelPtr c;
    if (how != 1) c.reset(new CollisionModel(boxVis(l), n));
    if (how == 2) v.reset();
    SceneObject::Physics ph; ph.massKg = kg;
    ObstaclePtr o(new Obstacle(n, v, c, ph));
    o->setGlobalPose(p);
    sc.ob[id] = o;
    return J(true);
}
OP("sman")
{
    std::string id = a.s(), n = a.s(), f = opt(a.s()); double l = a.d(); Eigen::Matrix4f p = a.pose();
    ManipulationObjectPtr o;
    if (f.empty()) { o.reset(new ManipulationObject(n, boxVis(l), CollisionModelPtr(new CollisionModel(boxVis(l), n)))); }
    else { o = ObjectIO::loadManipulationObject(f); if (!o) throw std::runtime_error("no object"); o->setName(n); }
    o->setGlobalPose(p);
    sc.mo[id] = o;
    return J(true);
}
OP("smanfile")
{   // writes a file of its own for a manipulation object at pose p
    std::string f = a.s(), n = a.s(); double l = a.d(); Eigen::Matrix4f p = a.pose();
    ManipulationObjectPtr o(new ManipulationObject(n, boxVis(l), CollisionModelPtr(new CollisionModel(boxVis(l), n))));
    o->setGlobalPose(p);
    return J(ObjectIO::saveManipulationObject(o, f));
}
OP("smove") { std::string k = a.s(), id = a.s(); Eigen::Matrix4f p = a.pose(); if (k == "ob") need(sc.ob, id)->setGlobalPose(p); else need(sc.mo, id)->setGlobalPose(p); return J(true); }
OP("scfg")
{
    std::string id = a.s(), r = a.s(), n = a.s(), tcp = opt(a.s()); auto m = nummap(a);
    RobotConfigPtr c(new RobotConfig(rb(r), n));
    for (auto& kv : m) c->setConfig(kv.first, fromSpec(rb(r)->getRobotNode(kv.first), kv.second));
    if (!tcp.empty()) c->setTCP(tcp);
    sc.cf[id] = c;
    return J(true);
}
OP("straj")
{
    std::string id = a.s(), r = a.s(), n = a.s(), rns = a.s(); auto v = a.nums();
    RobotNodeSetPtr s = rb(r)->getRobotNodeSet(rns);
    TrajectoryPtr t(new Trajectory(s, n));
    for (size_t i = 0; i + s->getSize() <= v.size(); i += s->getSize())
    {
        Eigen::VectorXf p(s->getSize());
        for (size_t k = 0; k < s->getSize(); k++) p[k] = fromSpec(s->getNode(k), v[i + k]);
        t->addPoint(p);
    }
    sc.tr[id] = t;
    return J(true);
}
OP("sset") { std::string id = a.s(), n = a.s(); sc.se[id].reset(new SceneObjectSet(n)); return J(true); }
static SceneObjectPtr member(const std::string& k, const std::string& id) { if (k == "ob") return need(sc.ob, id); return need(sc.mo, id); }
OP("ssadd") { std::string s = a.s(), k = a.s(), id = a.s(); return J(need(sc.se, s)->addSceneObject(member(k, id))); }
OP("ssrem") { std::string s = a.s(), k = a.s(), id = a.s(); return J(need(sc.se, s)->removeSceneObject(member(k, id))); }
OP("sshas") { std::string s = a.s(), k = a.s(), id = a.s(); return J(need(sc.se, s)->hasSceneObject(member(k, id))); }
OP("ssall") { std::string s = a.s(), t = a.s(); return J(need(sc.se, s)->addSceneObjects(need(sc.se, t))); }
OP("ssclone") { std::string s = a.s(), t = a.s(), n = a.s(); sc.se[t] = need(sc.se, s)->clone(n); return J(true); }

OP("sreg")
{
    std::string k = a.s(), id = a.s();
    if (k == "rb") sc.s->registerRobot(rb(id)); else if (k == "ob") sc.s->registerObstacle(need(sc.ob, id)); else if (k == "mo") sc.s->registerManipulationObject(need(sc.mo, id));
    else if (k == "tr") sc.s->registerTrajectory(need(sc.tr, id)); else sc.s->registerSceneObjectSet(need(sc.se, id));
    return J(true);
}
OP("sdereg")
{
    std::string k = a.s(), id = a.s();
    if (k == "rb") sc.s->deRegisterRobot(rb(id)); else if (k == "ob") sc.s->deRegisterObstacle(need(sc.ob, id)); else if (k == "mo") sc.s->deRegisterManipulationObject(need(sc.mo, id));
    else if (k == "tr") sc.s->deRegisterTrajectory(need(sc.tr, id)); else sc.s->deRegisterSceneObjectSet(need(sc.se, id));
    return J(true);
}
OP("sderegn")
{
    std::string k = a.s(), n = a.s();
    if (k == "rb") sc.s->deRegisterRobot(n); else if (k == "ob") sc.s->deRegisterObstacle(n); else if (k == "mo") sc.s->deRegisterManipulationObject(n);
    else if (k == "tr") sc.s->deRegisterTrajectory(n); else sc.s->deRegisterSceneObjectSet(n);
    return J(true);
}
OP("shas")
{
    std::string k = a.s(), id = a.s();
    if (k == "rb") return J(sc.s->hasRobot(rb(id))); if (k == "ob") return J(sc.s->hasObstacle(need(sc.ob, id))); if (k == "mo") return J(sc.s->hasManipulationObject(need(sc.mo, id)));
    if (k == "tr") return J(sc.s->hasTrajectory(need(sc.tr, id))); return J(sc.s->hasSceneObjectSet(need(sc.se, id)));
}
OP("sget")
{
    std::string k = a.s(), n = a.s(); Obj o;
    if (k == "rb") o.set("h", sc.s->hasRobot(n)).set("g", idIn(robots, sc.s->getRobot(n)));
    else if (k == "ob") o.set("h", sc.s->hasObstacle(n)).set("g", idIn(sc.ob, sc.s->getObstacle(n)));
    else if (k == "mo") o.set("h", sc.s->hasManipulationObject(n)).set("g", idIn(sc.mo, sc.s->getManipulationObject(n)));
    else if (k == "tr") o.set("h", sc.s->hasTrajectory(n)).set("g", idIn(sc.tr, sc.s->getTrajectory(n)));
    else o.set("h", sc.s->hasSceneObjectSet(n)).set("g", idIn(sc.se, sc.s->getSceneObjectSet(n)));
    return o;
}
OP("sregc") { std::string r = a.s(); std::vector<std::string> c = a.strs(); if (c.size() == 1) sc.s->registerRobotConfig(rb(r), need(sc.cf, c[0])); else { std::vector<RobotConfigPtr> v; for (auto& x : c) v.push_back(need(sc.cf, x)); sc.s->registerRobotConfig(rb(r), v); } return J(true); }
OP("sderegc") { std::string r = a.s(), c = a.s(); sc.s->deRegisterRobotConfig(rb(r), need(sc.cf, c)); return J(true); }
OP("sderegcn") { std::string r = a.s(), n = a.s(); sc.s->deRegisterRobotConfig(rb(r), n); return J(true); }
OP("sgetc")
{
    std::string r = a.s(), n = a.s(), c = a.s(); Obj o; RobotPtr p = rb(r);
    o.set("h", sc.s->hasRobotConfig(p, n)).set("g", idIn(sc.cf, sc.s->getRobotConfig(p, n))).set("hc", sc.s->hasRobotConfig(p, need(sc.cf, c)));
    Arr l; for (auto& x : sc.s->getRobotConfigs(p)) l.add(idIn(sc.cf, x));
    o.set("l", l);
    return o;
}
OP("sgetcn") { std::string rn = a.s(), n = a.s(); return J(idIn(sc.cf, sc.s->getRobotConfig(rn, n))); }
OP("strajs") { std::string rn = a.s(); Arr l; for (auto& x : sc.s->getTrajectories(rn)) l.add(idIn(sc.tr, x)); return l; }
OP("srns") { std::string r = a.s(), s = a.s(); RobotNodeSetPtr n = sc.s->getRobotNodeSet(r, s); if (!n) return J(""); return J(idIn(robots, n->getRobot()) + "/" + n->getName()); }
static J cfgJ(const RobotConfigPtr& c, const RobotPtr& r)
{
    Obj m; m.set("_", 0);
    for (auto& kv : c->getRobotNodeJointValueMap()) { RobotNodePtr n = r->getRobotNode(kv.first); m.set(kv.first, n ? jq(n, kv.second) : J(BAD)); }
    RobotNodePtr t = c->getTCP();
    return Obj().set("name", c->getName()).set("m", m).set("tcp", nm(t)).set("own", c->getRobot() == r && (!t || t->getRobot() == r));
}
// size of the bounding box of a model without its pose
static J box(const SceneObjectPtr& o, bool col)
{
    TriMeshModelPtr t;
    if (col) { if (o->getCollisionModel()) t = o->getCollisionModel()->getTriMeshModel(); }
    else if (o->getVisualization()) t = o->getVisualization()->getTriMeshModel();
    if (!t || t->vertices.empty()) return J(0);
    Eigen::Vector3f lo, hi; t->getSize(lo, hi);
    return jI(hi(0) - lo(0));
}
static J dump(const ScenePtr& s)
{
    Obj o;
    o.set("name", s->getName());
    Arr rs;
    for (auto& r : s->getRobots())
    {
        Obj q; q.set("_", 0);
        for (auto& n : r->getRobotNodes()) if (rev(n) || pris(n)) q.set(n->getName(), jq(n, n->getJointValue()));
        Arr cs;
        for (auto& c : s->getRobotConfigs(r)) cs.add(cfgJ(c, r));
        rs.add(Obj().set("name", r->getName()).set("type", r->getType()).set("pose", pose(r->getGlobalPose())).set("q", q).set("cfg", cs));
    }
    o.set("rb", rs);
    Arr os;
    for (auto& x : s->getObstacles()) os.add(Obj().set("name", x->getName()).set("pose", pose(x->getGlobalPose())).set("v", box(x, false)).set("c", box(x, true)).set("kg", jI(x->getMass())));
    o.set("ob", os);
    Arr ms;
    for (auto& x : s->getManipulationObjects()) ms.add(Obj().set("name", x->getName()).set("pose", pose(x->getGlobalPose())).set("v", box(x, false)).set("c", box(x, true)));
    o.set("mo", ms);
    Arr ss;
    for (auto& x : s->getSceneObjectSets()) { Arr m; for (auto& y : x->getSceneObjects()) m.add(y->getName()); ss.add(Obj().set("name", x->getName()).set("m", m)); }
    o.set("se", ss);
    Arr ts;
    for (auto& x : s->getTrajectories())
    {
        Arr p;
        RobotNodeSetPtr n = x->getRobotNodeSet();
        for (auto& v : x->getPoints()) { Arr c; for (int k = 0; k < v.rows(); k++) c.add(jq(n->getNode(k), v[k])); p.add(c); }
        ts.add(Obj().set("name", x->getName()).set("rob", n->getRobot() ? n->getRobot()->getName() : "").set("rns", n->getName()).set("p", p));
    }
    o.set("tr", ts);
    return o;
}
OP("sdump") { return dump(sc.s); }
OP("ssave") { std::string f = a.s(); return J(SceneIO::saveScene(sc.s, f)); }
OP("sload") { std::string f = a.s(); ScenePtr s = SceneIO::loadScene(f); if (!s) throw std::runtime_error("no scene"); return dump(s); }
OP("slist")
{
    Obj o;
    { Arr l; for (auto& x : sc.s->getRobots()) l.add(idIn(robots, x)); o.set("rb", l); }
    { Arr l; for (auto& x : sc.s->getObstacles()) l.add(idIn(sc.ob, x)); o.set("ob", l); }
    { Arr l; for (auto& x : sc.s->getManipulationObjects()) l.add(idIn(sc.mo, x)); o.set("mo", l); }
    { Arr l; for (auto& x : sc.s->getTrajectories()) l.add(idIn(sc.tr, x)); o.set("tr", l); }
    { Arr l; for (auto& x : sc.s->getSceneObjectSets()) l.add(idIn(sc.se, x)); o.set("se", l); }
    Obj c; c.set("_", 0);
    for (auto& r : robots) { Arr l; for (auto& x : sc.s->getRobotConfigs(r.second)) l.add(idIn(sc.cf, x)); c.set(r.first, l); }
    o.set("cf", c);
    Obj m; m.set("_", 0);
    for (auto& s : sc.se)
    {
        Arr l;
        for (auto& x : s.second->getSceneObjects())
        {
            std::string id = idIn(sc.mo, boost::dynamic_pointer_cast<ManipulationObject>(x));
            if (id.empty()) id = idIn(sc.ob, boost::dynamic_pointer_cast<Obstacle>(x));
            l.add(id);
        }
        m.set(s.first, l);
    }
    o.set("sm", m);
    return o;
}

// ------------------------------------------------------------------ C15
static std::map<std::string, GraspPtr> gr;
static std::map<std::string, GraspSetPtr> gs;
static std::map<std::string, ManipulationObjectPtr> ob;
static bool grasping = false;
void resetGrasps() { gr.clear(); gs.clear(); ob.clear(); grasping = false; }
static J graspJ(const GraspPtr& g)
{
    Obj c; c.set("_", 0);
    for (auto& kv : g->getConfiguration()) c.set(kv.first, jI(deg(kv.second), 0.02));
    return Obj().set("name", g->getName()).set("rt", g->getRobotType()).set("eef", g->getEefName()).set("p", pose(g->getTransformation()))
        .set("cr", g->getCreationMethod()).set("q", jI(g->getQuality() * 8, 0.02)).set("pre", g->getPreshapeName()).set("cfg", c);
}
static void adoptSet(const std::string& id, const GraspSetPtr& s, const std::string& sep)
{
    gs[id] = s;
    auto v = s->getGrasps();
    for (size_t i = 0; i < v.size(); i++) gr[id + sep + std::to_string(i)] = v[i];
}
static void adoptObj(const std::string& id, const ManipulationObjectPtr& o)
{
    ob[id] = o;
    auto v = o->getAllGraspSets();
    for (size_t i = 0; i < v.size(); i++) adoptSet(id + "." + std::to_string(i), v[i], ".");
}
static std::map<std::string, float> cfgOf(Args& a) { std::map<std::string, float> r; for (auto& kv : nummap(a)) r[kv.first] = (float)rad(kv.second); return r; }
OP("grasping") { grasping = true; return J(true); }
OP("gnew")
{
    std::string id = a.s(), n = a.s(), rt = a.s(), eef = a.s(); Eigen::Matrix4f p = a.pose(); std::string cr = opt(a.s()); double q = a.d() / 8; std::string pre = opt(a.s());
    gr[id].reset(new Grasp(n, rt, eef, p, cr, (float)q, pre));
    gr[id]->setConfiguration(cfgOf(a));
    return J(true);
}
OP("gname") { GraspPtr g = need(gr, a.s()); g->setName(a.s()); return J(true); }
OP("gtrafo") { GraspPtr g = need(gr, a.s()); g->setTransformation(a.pose()); return J(true); }
OP("gqual") { GraspPtr g = need(gr, a.s()); g->setQuality((float)(a.d() / 8)); return J(true); }
OP("gpre") { GraspPtr g = need(gr, a.s()); g->setPreshape(opt(a.s())); return J(true); }
OP("gcfg") { GraspPtr g = need(gr, a.s()); g->setConfiguration(cfgOf(a)); return J(true); }
OP("gclone") { GraspPtr g = need(gr, a.s()); std::string t = a.s(); gr[t] = g->clone(); return J(true); }
OP("gpose")
{
    GraspPtr g = need(gr, a.s()); Eigen::Matrix4f p = a.pose();
    Eigen::Matrix4f t = g->getTcpPoseGlobal(p), o = g->getObjectTargetPoseGlobal(p);
    return Obj().set("tcp", optPose(t)).set("obj", optPose(o)).set("b1", residual(g->getObjectTargetPoseGlobal(t), p)).set("b2", residual(g->getTcpPoseGlobal(o), p));
}
OP("grob") { std::string id = a.s(), f = a.s(); robots[id] = RobotIO::loadRobot(f, RobotIO::eFull); if (!robots[id]) throw std::runtime_error("no robot"); return J(true); }
OP("gtarget")
{   // pose of the object that robot r holds with this grasp
    GraspPtr g = need(gr, a.s()); RobotPtr r = rb(a.s()); auto m = nummap(a); Eigen::Matrix4f p = a.pose();
    std::map<std::string, float> v; for (auto& k : m) { RobotNodePtr n = r->getRobotNode(k.first); v[k.first] = fromSpec(n, k.second); }
    r->setJointValues(v); r->setGlobalPose(p);
    Eigen::Matrix4f t = g->getTargetPoseGlobal(r);
    EndEffectorPtr e = r->getEndEffector(g->getEefName());
    Obj o;
    o.set("p", optPose(t)).set("e", e ? true : false);
    if (e) o.set("tcp", optPose(e->getTcp()->getGlobalPose())).set("r", residual(g->getTcpPoseGlobal(t), e->getTcp()->getGlobalPose()));
    return o;
}
OP("gsnew") { std::string id = a.s(), n = a.s(), rt = a.s(), eef = a.s(); std::vector<GraspPtr> v; for (auto& x : a.strs()) v.push_back(need(gr, x)); gs[id].reset(new GraspSet(n, rt, eef, v)); return J(true); }
OP("gsadd") { GraspSetPtr s = need(gs, a.s()); s->addGrasp(need(gr, a.s())); return J(true); }
OP("gsrem") { GraspSetPtr s = need(gs, a.s()); return J(s->removeGrasp(need(gr, a.s()))); }
OP("gsremi") { GraspSetPtr s = need(gs, a.s()); return J(s->removeGrasp((unsigned)a.n())); }
OP("gsclear") { GraspSetPtr s = need(gs, a.s()); if (a.n()) s->clear(); else s->removeAllGrasps(); return J(true); }
OP("gsinc") { GraspSetPtr s = need(gs, a.s()), t = need(gs, a.s()); s->includeGraspSet(t); return J(true); }
OP("gsclone") { GraspSetPtr s = need(gs, a.s()); adoptSet(a.s(), s->clone(), "."); return J(true); }
OP("gspre") { GraspSetPtr s = need(gs, a.s()); s->setPreshape(opt(a.s())); return J(true); }
OP("gsq")
{
    GraspSetPtr s = need(gs, a.s()); GraspPtr g = need(gr, a.s()); std::string n = a.s(); unsigned i = (unsigned)a.n();
    return Obj().set("h", s->hasGrasp(g)).set("hn", s->hasGrasp(n)).set("gi", idIn(gr, s->getGrasp(i))).set("gn", idIn(gr, s->getGrasp(n))).set("n", s->getSize()).set("comp", s->isCompatibleGrasp(g));
}
OP("onew") { std::string id = a.s(), n = a.s(); Eigen::Matrix4f p = a.pose(); ManipulationObjectPtr o(new ManipulationObject(n, boxVis(20), CollisionModelPtr(new CollisionModel(boxVis(20), n)))); o->setGlobalPose(p); ob[id] = o; return J(true); }
OP("omove") { ManipulationObjectPtr o = need(ob, a.s()); o->setGlobalPose(a.pose()); return J(true); }
OP("oadd") { ManipulationObjectPtr o = need(ob, a.s()); o->addGraspSet(need(gs, a.s())); return J(true); }
OP("oinc") { ManipulationObjectPtr o = need(ob, a.s()); o->includeGraspSet(need(gs, a.s())); return J(true); }
OP("oclone") { ManipulationObjectPtr o = need(ob, a.s()); std::string t = a.s(), n = a.s(); adoptObj(t, o->clone(n)); return J(true); }
OP("oq")
{
    ManipulationObjectPtr o = need(ob, a.s()); GraspSetPtr s = need(gs, a.s()); std::string rt = a.s(), eef = a.s(), n = a.s();
    return Obj().set("h", o->hasGraspSet(s)).set("ht", o->hasGraspSet(rt, eef)).set("gt", idIn(gs, o->getGraspSet(rt, eef))).set("gn", idIn(gs, o->getGraspSet(n)));
}
OP("oqr")
{   // look-up by the end effector of a robot
    ManipulationObjectPtr o = need(ob, a.s()); RobotPtr r = rb(a.s()); EndEffectorPtr e = r->getEndEffector(a.s());
    return J(idIn(gs, o->getGraspSet(e)));
}
OP("osave") { ManipulationObjectPtr o = need(ob, a.s()); return J(ObjectIO::saveManipulationObject(o, a.s())); }
OP("oload") { std::string t = a.s(), f = a.s(); ManipulationObjectPtr o = ObjectIO::loadManipulationObject(f); if (!o) throw std::runtime_error("no object"); adoptObj(t, o); return J(true); }
OP("oxml") { ManipulationObjectPtr o = need(ob, a.s()); std::string t = a.s(); ManipulationObjectPtr c = ObjectIO::createManipulationObjectFromString(o->toXML()); if (!c) throw std::runtime_error("no object"); adoptObj(t, c); return J(true); }
static J graspState()
{
    Obj g; g.set("_", 0); for (auto& x : gr) g.set(x.first, graspJ(x.second));
    Obj s; s.set("_", 0);
    for (auto& x : gs) { Arr l; for (auto& y : x.second->getGrasps()) l.add(idIn(gr, y)); s.set(x.first, Obj().set("name", x.second->getName()).set("rt", x.second->getRobotType()).set("eef", x.second->getEndEffector()).set("g", l)); }
    Obj o; o.set("_", 0);
    for (auto& x : ob) { Arr l; for (auto& y : x.second->getAllGraspSets()) l.add(idIn(gs, y)); o.set(x.first, Obj().set("name", x.second->getName()).set("p", pose(x.second->getGlobalPose())).set("s", l)); }
    return Obj().set("gr", g).set("gs", s).set("ob", o);
}

#include "col.h"
#line 30001 "scn.cpp"
int main(int argc, char** argv)
{
    projector() = [](const std::string& op, Obj& o)
    {
        if (forest) o.set("el", forestState());
        if (grasping) o.set("st", graspState());
    };
    return drv::main(argc, argv);
}
