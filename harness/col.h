#line 20001 "col.h"
// Collision and distance queries (C09); included by scn.cpp.
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/RobotNodeSet.h>

static std::map<std::string, SceneObjectSetPtr> cset;
static std::map<std::string, boost::shared_ptr<CDManager>> cman;
void resetCol() { cset.clear(); cman.clear(); }

static VisualizationNodePtr boxesVis(const std::vector<double>& l)
{
    TriMeshModelPtr m(new TriMeshModel());
    for (size_t b = 0; b + 15 <= l.size(); b += 15)
    {
        const double* h = &l[b]; const double* r = &l[b + 3]; const double* c = &l[b + 12];
        auto corner = [&](int x, int y, int z) { Eigen::Vector3f v; for (int i = 0; i < 3; i++) v[i] = (float)(c[i] + (x * h[0] * r[3 * i] + y * h[1] * r[3 * i + 1] + z * h[2] * r[3 * i + 2]) / 25.0); return v; };
        auto quad = [&](Eigen::Vector3f p, Eigen::Vector3f q, Eigen::Vector3f s, Eigen::Vector3f t) { m->addTriangleWithFace(p, q, s); m->addTriangleWithFace(p, s, t); };
        auto face = [&](bool flip, Eigen::Vector3f p, Eigen::Vector3f q, Eigen::Vector3f s, Eigen::Vector3f t) { if (flip) quad(t, s, q, p); else quad(p, q, s, t); };   // outward
        for (int s = -1; s <= 1; s += 2)
        {
            face(s < 0, corner(s, -1, -1), corner(s, 1, -1), corner(s, 1, 1), corner(s, -1, 1));
            face(s > 0, corner(-1, s, -1), corner(1, s, -1), corner(1, s, 1), corner(-1, s, 1));
            face(s < 0, corner(-1, -1, s), corner(1, -1, s), corner(1, 1, s), corner(-1, 1, s));
        }
    }
    Eigen::Matrix4f i = Eigen::Matrix4f::Identity();
    return VisualizationFactory::first(NULL)->createTriMeshModelVisualization(m, i);
}
static SceneObjectPtr colObj(const std::string& name, CollisionModelPtr c) { return SceneObjectPtr(new SceneObject(name, VisualizationNodePtr(), c)); }
OP("newc")
{
    std::string id = a.s(), name = a.s(); Eigen::Matrix4f p = a.pose(); std::vector<double> l = a.nums();
    SceneObjectPtr o = colObj(name, CollisionModelPtr(new CollisionModel(boxesVis(l), name)));
    o->setGlobalPose(p);
    held[id] = o; elems[id] = o;
    return J(true);
}
OP("cinfl") { SceneObjectPtr o = el(a); int k = a.n(); o->getCollisionModel()->inflateModel(26.0f * k); return J(true); }
OP("rinfl") { RobotPtr r = rb(a.s()); int k = a.n(); r->inflateCollisionModel(26.0f * k); return J(true); }
OP("cflat")
{
    SceneObjectPtr o = el(a); std::string id = a.s(), name = a.s(); Eigen::Matrix4f p = a.pose();
    SceneObjectPtr n = colObj(name, o->getCollisionModel()->clone(CollisionChecker::getGlobalCollisionChecker(), 1.0f, false));
    n->setGlobalPose(p); held[id] = n; elems[id] = n;
    return J(true);
}
OP("newn") { std::string id = a.s(), name = a.s(); Eigen::Matrix4f p = a.pose(); SceneObjectPtr o = colObj(name, CollisionModelPtr()); o->setGlobalPose(p); held[id] = o; elems[id] = o; return J(true); }
OP("cset") { std::string s = a.s(); cset[s].reset(new SceneObjectSet(s, CollisionChecker::getGlobalCollisionChecker())); return J(true); }
OP("crns") { std::string s = a.s(), r = a.s(); std::vector<std::string> n = a.strs(); RobotNodeSetPtr x = RobotNodeSet::createRobotNodeSet(rb(r), s, n); cset[s] = x; return J(true); }
OP("csadd") { SceneObjectSetPtr s = need(cset, a.s()); return J(s->addSceneObject(el(a))); }
OP("csrem") { SceneObjectSetPtr s = need(cset, a.s()); return J(s->removeSceneObject(el(a))); }
OP("csclone") { SceneObjectSetPtr s = need(cset, a.s()); std::string t = a.s(); cset[t] = s->SceneObjectSet::clone(t); return J(true); }

struct Opd
{
    std::string k; CollisionModelPtr m; SceneObjectPtr o; SceneObjectSetPtr s; std::vector<CollisionModelPtr> v;
    Opd(const std::string& k, const std::string& x) : k(k)
    {
        if (k == "m") m = el(x)->getCollisionModel();
        else if (k == "o") o = el(x);
        else if (k == "r") o = rb(x);
        else if (k == "s") s = need(cset, x);
        else if (k == "v") v = need(cset, x)->getCollisionModels();
    }
};
static Opd opd(Args& a) { std::string k = a.s(), x = a.s(); return Opd(k, x); }
OP("cc")
{
    Opd x = opd(a), y = opd(a);
    CollisionCheckerPtr c = CollisionChecker::getGlobalCollisionChecker();
    if (!x.v.empty() || x.k == "v") return J(c->checkCollision(x.v, y.m));
    if (x.s && y.s) return J(c->checkCollision(x.s, y.s));
    if (x.m && y.s) return J(c->checkCollision(x.m, y.s));
    if (x.m && y.m) return J(c->checkCollision(x.m, y.m));
    if (x.o && y.s) return J(c->checkCollision(x.o, y.s));
    if (x.o && y.o) return J(c->checkCollision(x.o, y.o));
    throw std::logic_error("script: no overload");
}
static J dist(float d, bool w, const Eigen::Vector3f& p, const Eigen::Vector3f& q)
{
    Obj o; o.set("d", (int)(std::abs(d) > 1e6f ? 10000000 : std::lround(d * 10)));
    Arr e1, e2;
    if (w) for (int i = 0; i < 3; i++) { e1.add((int)std::lround(p[i] * 25)); e2.add((int)std::lround(q[i] * 25)); }
    o.set("p", e1).set("q", e2);
    return o;
}
OP("cd")
{
    Opd x = opd(a), y = opd(a); bool w = a.b();
    CollisionCheckerPtr c = CollisionChecker::getGlobalCollisionChecker();
    Eigen::Vector3f p(9000, 0, 0), q(0, 9000, 0); int i = 0, j = 0; float d;
    if (x.s && y.s) d = w ? c->calculateDistance(x.s, y.s, p, q, &i, &j) : c->calculateDistance(x.s, y.s);
    else if (x.m && y.s) d = w ? c->calculateDistance(x.m, y.s, p, q, &i, &j) : c->calculateDistance(x.m, y.s);
    else if (x.m && y.m) d = w ? c->calculateDistance(x.m, y.m, p, q, &i, &j) : c->calculateDistance(x.m, y.m);
    else if (x.o && y.s) d = w ? c->calculateDistance(x.o, y.s, p, q, &i, &j) : c->calculateDistance(x.o, y.s);
    else if (x.o && y.o) d = w ? c->calculateDistance(x.o, y.o, p, q, &i, &j) : c->calculateDistance(x.o, y.o);
    else throw std::logic_error("script: no overload");
    return dist(d, w, p, q);
}
OP("cpt")
{
    Opd x = opd(a); Eigen::Vector3f v; for (int i = 0; i < 3; i++) v[i] = (float)a.d(); float tol = (float)a.d();
    CollisionCheckerPtr c = CollisionChecker::getGlobalCollisionChecker();
    return J(x.s ? c->checkCollision(x.s, v, tol) : c->checkCollision(x.m, v, tol));
}
static CDManager& man(Args& a) { return *need(cman, a.s()); }
OP("mnew") { cman[a.s()].reset(new CDManager(CollisionChecker::getGlobalCollisionChecker())); return J(true); }
OP("madd") { CDManager& m = man(a); Opd x = opd(a); if (x.s) m.addCollisionModel(x.s); else m.addCollisionModel(x.o); return J(true); }
OP("mpair")
{
    CDManager& m = man(a); Opd x = opd(a), y = opd(a);
    if (x.s && y.s) m.addCollisionModelPair(x.s, y.s); else if (x.o && y.s) m.addCollisionModelPair(x.o, y.s); else m.addCollisionModelPair(x.o, y.o);
    return J(true);
}
OP("mcol") { return J(man(a).isInCollision()); }
OP("mcols") { CDManager& m = man(a); return J(m.isInCollision(need(cset, a.s()))); }
OP("mdist") { CDManager& m = man(a); bool w = a.b(); Eigen::Vector3f p(9000, 0, 0), q(0, 9000, 0); int i, j; float d = w ? m.getDistance(p, q, i, j) : m.getDistance(); return dist(d, w, p, q); }
OP("mdists") { CDManager& m = man(a); SceneObjectSetPtr s = need(cset, a.s()); bool w = a.b(); Eigen::Vector3f p(9000, 0, 0), q(0, 9000, 0); int i, j; float d = w ? m.getDistance(s, p, q, i, j) : m.getDistance(s); return dist(d, w, p, q); }
OP("mhas") { CDManager& m = man(a); Obj o; o.set("has", m.hasSceneObjectSet(need(cset, a.s()))).set("n", (int)m.getSceneObjectSets().size()); return o; }
OP("mhaso") { CDManager& m = man(a); return J(m.hasSceneObject(el(a))); }
