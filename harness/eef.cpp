// Driver for end effectors (C14).
#include "robproj.h"
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
using namespace VirtualRobot;
using namespace drv;
using namespace proj;

static std::map<std::string, RobotPtr> R;
static std::map<std::string, SceneObjectPtr> O;
static std::map<std::string, SceneObjectSetPtr> SO;
static bool wantSt = false;

static RobotPtr rob(Args& a) { std::string k = a.s(); if (!R.count(k)) throw std::logic_error("script: no robot " + k); return R[k]; }
static RobotNodePtr node(const RobotPtr& r, Args& a) { std::string k = a.s(); RobotNodePtr n = r->getRobotNode(k); if (!n) throw std::logic_error("script: no node " + k); return n; }
static EndEffectorPtr eef(Args& a) { RobotPtr r = rob(a); std::string k = a.s(); EndEffectorPtr e = r->getEndEffector(k); if (!e) throw std::logic_error("script: no effector " + k); return e; }
static EndEffectorActorPtr actor(const EndEffectorPtr& e, Args& a)
{
    std::string k = a.s(); std::vector<EndEffectorActorPtr> v; e->getActors(v);
    for (auto& x : v) if (x->getName() == k) return x;
    throw std::logic_error("script: no actor " + k);
}
static SceneObjectPtr object(const std::string& k) { if (!O.count(k)) throw std::logic_error("script: no object " + k); return O[k]; }
static VisualizationNodePtr boxesVis(const std::vector<double>& l)
{
    TriMeshModelPtr m(new TriMeshModel());
    for (size_t b = 0; b + 15 <= l.size(); b += 15)
    {
        const double* h = &l[b]; const double* r = &l[b + 3]; const double* c = &l[b + 12];
        auto corner = [&](int x, int y, int z) { Eigen::Vector3f v; for (int i = 0; i < 3; i++) v[i] = (float)(c[i] + (x * h[0] * r[3 * i] + y * h[1] * r[3 * i + 1] + z * h[2] * r[3 * i + 2]) / 25.0); return v; };
        auto quad = [&](Eigen::Vector3f p, Eigen::Vector3f q, Eigen::Vector3f s, Eigen::Vector3f t) { m->addTriangleWithFace(p, q, s); m->addTriangleWithFace(p, s, t); };
        for (int s = -1; s <= 1; s += 2)
        {
            quad(corner(s, -1, -1), corner(s, 1, -1), corner(s, 1, 1), corner(s, -1, 1));
            quad(corner(-1, s, -1), corner(1, s, -1), corner(1, s, 1), corner(-1, s, 1));
            quad(corner(-1, -1, s), corner(1, -1, s), corner(1, 1, s), corner(-1, 1, s));
        }
    }
    Eigen::Matrix4f i = Eigen::Matrix4f::Identity();
    return VisualizationFactory::first(NULL)->createTriMeshModelVisualization(m, i);
}
static J p25(const Eigen::Vector3f& v) { Arr a; for (int i = 0; i < 3; i++) a.add(jI(25.0 * v[i], 0.6)); return a; }
static J contacts(const EndEffector::ContactInfoVector& cs, const EndEffectorPtr& e)
{
    Arr l;
    for (auto& c : cs)
    {
        Arr d; for (int i = 0; i < 3; i++) d.add(jI(1000.0 * c.approachDirectionGlobal[i], 0.6));
        l.add(Obj().set("e", c.eef == e).set("a", c.actor ? c.actor->getName() : std::string("")).set("n", c.robotNode ? c.robotNode->getName() : std::string("")).set("o", c.obstacle ? c.obstacle->getName() : std::string(""))
               .set("d", jI(10.0 * c.distance, 0.6)).set("fp", p25(c.contactPointFingerGlobal)).set("op", p25(c.contactPointObstacleGlobal))
               .set("fl", p25(c.contactPointFingerLocal)).set("ol", p25(c.contactPointObstacleLocal)).set("dir", d));
    }
    return l;
}
static J names(const std::vector<std::string>& v) { Arr a; for (auto& s : v) a.add(s); return a; }

OP("reset") { R.clear(); O.clear(); SO.clear(); return J(true); }
OP("robot")
{
    std::string id = a.s(), f = a.s();
    RobotPtr r = RobotIO::loadRobot(f, RobotIO::eFull);
    if (!r) throw std::runtime_error("not loaded");
    R[id] = r; wantSt = true;
    return J(true);
}
OP("newo")
{
    std::string id = a.s(); Eigen::Matrix4f p = a.pose(); std::vector<double> l = a.nums();
    CollisionModelPtr c;
    if (!l.empty()) c.reset(new CollisionModel(boxesVis(l), id));
    SceneObjectPtr o(new SceneObject(id, VisualizationNodePtr(), c));
    o->setGlobalPose(p); O[id] = o;
    return J(true);
}
OP("move") { SceneObjectPtr o = object(a.s()); o->setGlobalPose(a.pose()); return J(true); }
OP("oset") { std::string s = a.s(); auto l = a.strs(); SO[s].reset(new SceneObjectSet(s, CollisionChecker::getGlobalCollisionChecker())); for (auto& x : l) SO[s]->addSceneObject(object(x)); return J(true); }
OP("q") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); r->setJointValue(n, fromSpec(n, a.d())); wantSt = true; return J(true); }
OP("rpose") { RobotPtr r = rob(a); r->setGlobalPose(a.pose()); wantSt = true; return J(true); }
OP("mv") { EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); wantSt = true; return J(x->moveActor((float)a.n())); }
OP("mvc")
{
    EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); std::string k = a.s(), o = a.s(); float s = a.n();
    SceneObjectSetPtr so;
    if (k == "s") so = SO.at(o);
    else if (k == "o") { so.reset(new SceneObjectSet("one", CollisionChecker::getGlobalCollisionChecker())); so->addSceneObject(object(o)); }
    EndEffector::ContactInfoVector c;
    bool b = x->moveActorCheckCollision(e, c, so, s);
    wantSt = true;
    return Obj().set("b", b).set("c", contacts(c, e));
}
OP("close")
{
    EndEffectorPtr e = eef(a); std::string k = a.s(), o = a.s(); float s = a.n();
    EndEffector::ContactInfoVector c;
    if (k == "s") c = e->closeActors(SO.at(o), s);
    else if (k == "o") c = e->closeActors(object(o), s);
    else c = e->closeActors(SceneObjectSetPtr(), s);
    wantSt = true;
    return Obj().set("c", contacts(c, e));
}
OP("open")
{
    EndEffectorPtr e = eef(a); std::string k = a.s(), o = a.s(); float s = a.n();
    SceneObjectSetPtr so;
    if (k == "s") so = SO.at(o);
    else if (k == "o") { so.reset(new SceneObjectSet("one", CollisionChecker::getGlobalCollisionChecker())); so->addSceneObject(object(o)); }
    e->openActors(so, s);
    wantSt = true;
    return J(true);
}
OP("pre")
{
    EndEffectorPtr e = eef(a); std::string n = a.s(); wantSt = true;
    if (e->hasPreshape(n) != (bool)e->getPreshape(n)) return J("contradiction");
    return J(e->setPreshape(n));
}
OP("rpre")
{
    EndEffectorPtr e = eef(a); std::string n = a.s(); int k = a.n();
    RobotConfigPtr c(new RobotConfig(e->getRobot(), n));
    while (k-- > 0) { RobotNodePtr x = node(e->getRobot(), a); c->setConfig(x, fromSpec(x, a.d())); }
    e->registerPreshape(c);
    return J(true);
}
OP("hito")
{
    EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); std::string k = a.s(), o = a.s(); auto m = (EndEffectorActor::CollisionMode)a.n(); bool c = a.b();
    EndEffector::ContactInfoVector v; bool b;
    if (k == "s") b = c ? x->isColliding(e, SO.at(o), v, m) : x->isColliding(SO.at(o), m);
    else b = c ? x->isColliding(e, object(o), v, m) : x->isColliding(object(o), m);
    return Obj().set("b", b).set("c", contacts(v, e));
}
OP("hitn")
{
    EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); RobotPtr r2 = rob(a); SceneObjectPtr o = node(r2, a); auto m = (EndEffectorActor::CollisionMode)a.n(); bool c = a.b();
    EndEffector::ContactInfoVector v;
    bool b = c ? x->isColliding(e, o, v, m) : x->isColliding(o, m);
    return Obj().set("b", b).set("c", contacts(v, e));
}
OP("hita")
{
    EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); EndEffectorPtr e2 = eef(a); EndEffectorActorPtr y = actor(e2, a); bool c = a.b();
    EndEffector::ContactInfoVector v;
    bool b = c ? x->isColliding(e, y, v) : x->isColliding(y);
    return Obj().set("b", b).set("c", contacts(v, e));
}
OP("hite")
{
    EndEffectorPtr e = eef(a); EndEffectorActorPtr x = actor(e, a); EndEffectorPtr e2 = eef(a); bool c = a.b();
    EndEffector::ContactInfoVector v;
    bool b = c ? x->isColliding(e, e2, v) : x->isColliding(e2);
    return Obj().set("b", b).set("c", contacts(v, e));
}
OP("stat")
{
    EndEffectorPtr e = eef(a); std::string o = a.s(); Eigen::Vector3f v = a.v3(); float d = a.n();
    EndEffector::ContactInfoVector c;
    int n = e->addStaticPartContacts(object(o), c, v, d);
    return Obj().set("b", n).set("c", contacts(c, e));
}
OP("info")
{
    EndEffectorPtr e = eef(a); auto ns = a.strs(); RobotPtr r = e->getRobot();
    std::vector<std::string> all, has, set; std::vector<RobotNodePtr> suff;
    for (auto& n : e->getAllNodes()) all.push_back(n->getName());
    for (auto& n : r->getRobotNodes()) if (e->hasNode(n)) has.push_back(n->getName());
    for (auto& s : e->createSceneObjectSet()->getSceneObjects()) set.push_back(s->getName());
    for (auto& n : ns) suff.push_back(r->getRobotNode(n));
    return Obj().set("all", names(all)).set("has", names(has)).set("set", names(set)).set("cfg", configMap(e->getConfiguration(), r))
           .set("pre", names(e->getPreshapes())).set("suff", e->nodesSufficient(suff));
}
OP("eefrob")
{
    EndEffectorPtr e = eef(a); std::string id = a.s();
    RobotPtr r = e->createEefRobot(id, id);
    if (!r) throw std::runtime_error("not created");
    R[id] = r; wantSt = true;
    return J(r->hasEndEffector(e->getName()));
}

static void state(Obj& o)
{
    if (!wantSt) return;
    wantSt = false;
    Obj st;
    for (auto& x : R)
    {
        Obj ns;
        for (auto& n : x.second->getRobotNodes())
            ns.set(n->getName(), Obj().set("q", (rev(n) || pris(n)) ? jq(n, n->getJointValue()) : J(0)).set("p", pose(n->getGlobalPose())).set("loc", pose(n->getLocalTransformation())));
        st.set(x.first, Obj().set("pose", pose(x.second->getGlobalPose())).set("n", ns));
    }
    o.set("st", R.empty() ? J::raw("{\"_\":0}") : (J)st);
}
static struct Init { Init() { projector() = [](const std::string&, Obj& o) { state(o); }; } } init;
int main(int argc, char** argv) { return drv::main(argc, argv); }
