// Driver for configuration spaces, search trees (C10), planners (C11), paths (C12), path processing (C13) and threads (C18).
#include "robproj.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/ConfigurationConstraint.h>
#include <MotionPlanning/Planner/Rrt.h>
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/Planner/PlanningThread.h>
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
#include <MotionPlanning/PostProcessing/ElasticBandProcessor.h>
#include <MotionPlanning/PostProcessing/PathProcessingThread.h>
#include <VirtualRobot/Random.h>
#include <atomic>
#include <chrono>
#include <thread>
using namespace VirtualRobot;
using namespace Saba;
using namespace drv;

// configurations are given in tenths of a millimetre or of a degree
static RobotPtr rob;
static std::vector<bool> ang;
static SceneObjectSetPtr obstacles;
static std::map<std::string, CSpacePtr> spaces;
static std::map<std::string, RobotPtr> spaceRob;
static std::map<std::string, CSpaceTreePtr> trees;
static std::map<std::string, CSpaceNodePtr> loose;
static std::map<std::string, TrajectoryPtr> paths;
struct Planner { boost::shared_ptr<Rrt> p; std::string space; };
static std::map<std::string, Planner> planners;
static std::map<std::string, boost::shared_ptr<PathProcessor>> procs;
static bool dumpTrees = false;

template <class T> static T& get(std::map<std::string, T>& m, const std::string& k)
{
    if (!m.count(k)) throw std::logic_error("script: no " + k);
    return m[k];
}
static float in(int d, double v) { return ang[d] ? (float)rad(v / 10) : (float)(v / 10); }
static J outv(int d, float v) { double x = (ang[d] ? deg(v) : v) * 10; return (x == x && std::fabs(x) < 2e7) ? J((int)std::floor(x + .5)) : J(BAD); }
static Eigen::VectorXf cfg(const std::vector<double>& v)
{
    Eigen::VectorXf r(v.size());
    for (size_t i = 0; i < v.size(); i++) r[i] = in(i, v[i]);
    return r;
}
static Eigen::VectorXf cfg(Args& a) { return cfg(a.nums()); }
static J out(const Eigen::VectorXf& c) { Arr a; for (int i = 0; i < c.rows(); i++) a.add(i < (int)ang.size() ? outv(i, c[i]) : J(BAD)); return a; }
static J points(const TrajectoryPtr& p) { Arr a; if (p) for (unsigned i = 0; i < p->getNrOfPoints(); i++) a.add(out(p->getPoint(i))); return a; }
static std::vector<Eigen::VectorXf> cfgs(Args& a)
{
    std::vector<Eigen::VectorXf> r;
    int n = a.n();
    std::vector<double> v = a.nums();
    int d = n ? v.size() / n : 0;
    for (int i = 0; i < n; i++) r.push_back(cfg(std::vector<double>(v.begin() + i * d, v.begin() + (i + 1) * d)));
    return r;
}
static int hundredth(double v) { return (v == v && std::fabs(v) < 2e7) ? (int)std::floor(v * 100 + .5) : BAD; }

// half space: c . q <= b; optionally asks a planner to stop after some evaluations, or waits
struct HalfSpace : ConfigurationConstraint
{
    std::vector<double> c; double b; long n = 0;
    HalfSpace(unsigned d, std::vector<double> c, double b) : ConfigurationConstraint(d), c(c), b(b) {}
    bool isValid(const Eigen::VectorXf& q) override
    {
        n++;
        double s = 0;
        for (size_t i = 0; i < c.size(); i++) s += c[i] * (ang[i] ? deg(q[i]) : q[i]) * 10;
        return s <= b;
    }
};
struct Watch : ConfigurationConstraint
{
    std::atomic<long> n{0}; long at; int us; boost::shared_ptr<Rrt> p; PathProcessor* proc = nullptr;
    Watch(unsigned d, long at, int us) : ConfigurationConstraint(d), at(at), us(us) {}
    bool isValid(const Eigen::VectorXf&) override
    {
        long k = ++n;
        if (at > 0 && k == at) { if (p) p->stopExecution(); if (proc) proc->stopExecution(); }
        if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us));
        return true;
    }
};
static std::map<std::string, boost::shared_ptr<Watch>> watches;

static CDManagerPtr manager(RobotPtr r)
{
    CDManagerPtr m(new CDManager(r->getCollisionChecker()));
    m->addCollisionModel(r->getRobotNodeSet("body"));
    if (obstacles && obstacles->getSize()) m->addCollisionModel(obstacles);
    return m;
}
static J treeState()
{
    Obj all; all.set("_", 0);
    for (auto& t : trees)
    {
        Arr ns;
        for (auto& n : t.second->getNodes())
        {
            Arr ch; for (auto& c : n->children) ch.add((int)c->ID);
            ns.add(Arr().add((int)n->ID).add(n->parentID < 0 ? J(-1) : J(n->parentID)).add(out(n->configuration)).add(ch));
        }
        all.set(t.first, ns);
    }
    return all;
}
static void endThreads();
static struct Init { Init() { projector() = [](const std::string&, Obj& o) { if (dumpTrees) o.set("st", treeState()); }; } } init_;

OP("reset")
{
    dumpTrees = false;
    endThreads();
    procs.clear(); watches.clear(); planners.clear(); paths.clear(); trees.clear(); loose.clear(); spaces.clear(); spaceRob.clear(); obstacles.reset(); rob.reset(); ang.clear();
    return 0;
}
// env file dump joints angular obstacles(6 numbers each: centre, half extents)
OP("env")
{
    std::string file = a.s(); dumpTrees = a.b();
    std::vector<std::string> js = a.strs();
    std::vector<double> an = a.nums(), ob = a.nums();
    for (double x : an) ang.push_back(x != 0);
    rob = RobotIO::loadRobot(file, RobotIO::eCollisionModel);
    if (!rob) throw std::runtime_error("no robot");
    RobotNodeSet::createRobotNodeSet(rob, "joints", js, "", "tool", true);
    RobotNodeSet::createRobotNodeSet(rob, "body", std::vector<std::string>{"tool"}, "", "tool", true);
    obstacles.reset(new SceneObjectSet("obstacles", rob->getCollisionChecker()));
    for (size_t i = 0; i + 5 < ob.size(); i += 6)
    {
        ObstaclePtr o = Obstacle::createBox(ob[i + 3] / 5, ob[i + 4] / 5, ob[i + 5] / 5);
        Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
        for (int k = 0; k < 3; k++) m(k, 3) = ob[i + k] / 10;
        o->setGlobalPose(m);
        obstacles->addSceneObject(o);
    }
    return 0;
}
// the base class alone: paths are straight lines of two points, only the end is checked
struct Plain : CSpace
{
    using CSpace::CSpace;
    CSpacePtr clone(CollisionCheckerPtr, RobotPtr, CDManagerPtr, unsigned) override { return CSpacePtr(); }
};
OP("space")
{
    std::string s = a.s(), k = a.s(); int cap = a.n();
    CDManagerPtr m = manager(rob);
    RobotNodeSetPtr js = rob->getRobotNodeSet("joints");
    if (k == "sampled") spaces[s].reset(new CSpaceSampled(rob, m, js, cap));
    else spaces[s].reset(new Plain(rob, m, js, cap));
    spaceRob[s] = rob;
    return (int)spaces[s]->getDimension();
}
OP("sclone")
{
    std::string s = a.s(), t = a.s();
    CSpacePtr c = get(spaces, s);
    RobotPtr r = spaceRob[s]->clone(spaceRob[s]->getName());
    CSpacePtr d = c->clone(r->getCollisionChecker(), r, manager(r), 0);
    if (!d) return false;
    spaces[t] = d; spaceRob[t] = r;
    bool own = d->getRobot() == r && d->getRobotNodeSet()->getRobot() == r;
    return own;
}
OP("sbound") { CSpacePtr s = get(spaces, a.s()); int d = a.n(); float lo = in(d, a.d()), hi = in(d, a.d()); s->setBoundary(d, lo, hi); return 0; }
OP("sbounds") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf lo = cfg(a), hi = cfg(a); s->setBoundaries(lo, hi); return 0; }
OP("qbounds")
{
    CSpacePtr s = get(spaces, a.s());
    Arr r; for (unsigned d = 0; d < s->getDimension(); d++) r.add(Arr().add(outv(d, s->getBoundaryMin(d))).add(outv(d, s->getBoundaryMax(d))).add(outv(d, s->getBoundaryDist(d))).add(s->isBorderlessDimension(d)));
    return r;
}
OP("sweights") { CSpacePtr s = get(spaces, a.s()); std::vector<double> w = a.nums(); Eigen::VectorXf v(w.size()); for (size_t i = 0; i < w.size(); i++) v[i] = w[i]; s->setMetricWeights(v); return 0; }
OP("suse") { CSpacePtr s = get(spaces, a.s()); s->enableWeights(a.b()); return 0; }
OP("ssamp")
{
    auto s = boost::dynamic_pointer_cast<CSpaceSampled>(get(spaces, a.s())); double p = a.d(), q = a.d();
    if (!s) throw std::logic_error("script: space is not sampled");
    s->setSamplingSize(p / 10); s->setSamplingSizeDCD(q / 10);
    return Arr().add(jI(s->getSamplingSize() * 10)).add(jI(s->getSamplingSizeDCD() * 10));
}
OP("scons") { CSpacePtr s = get(spaces, a.s()); std::vector<double> c = a.nums(); double b = a.d(); s->addConstraintCheck(ConfigurationConstraintPtr(new HalfSpace(s->getDimension(), c, b))); return 0; }
OP("qdist") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf x = cfg(a), y = cfg(a); bool off = a.b(); double d = s->calcDist(x, y, off), e = s->calcDist2(x, y, off); return Arr().add(hundredth(d)).add(std::fabs(d * d - e) <= 1e-3 * (1 + e)); }
OP("qin") { CSpacePtr s = get(spaces, a.s()); return s->isInBoundary(cfg(a)); }
OP("qresp") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf c = cfg(a); s->respectBoundaries(c); return out(c); }
OP("qvalid") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf c = cfg(a); int m = a.n(); return s->isConfigValid(c, m & 1, m & 2, m & 4); }
OP("qfree") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf c = cfg(a); return s->isCollisionFree(c); }
OP("qodist") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf c = cfg(a); return hundredth(s->calculateObstacleDistance(c) / 10); }
OP("qint") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf x = cfg(a), y = cfg(a); double k = a.d() / 100; return out(s->interpolate(x, y, (float)k)); }
OP("qpath") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf x = cfg(a), y = cfg(a); return points(s->createPath(x, y)); }
OP("quntil")
{
    CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf x = cfg(a), y = cfg(a); float l = -1;
    CSpacePathPtr p = s->createPathUntilInvalid(x, y, l);
    return Obj().set("p", points(p)).set("all", l == 1.0f).set("in", l >= 0 && l <= 1.0f);
}
OP("qpv") { CSpacePtr s = get(spaces, a.s()); Eigen::VectorXf x = cfg(a), y = cfg(a); return s->isPathValid(x, y); }
OP("qrand")
{
    CSpacePtr s = get(spaces, a.s()); int n = a.n(); bool v = a.b(); Arr r; Eigen::VectorXf c(s->getDimension());
    while (n-- > 0) { s->getRandomConfig(c, v); r.add(out(c)); }
    return r;
}
// ------------------------------------------------------------------ nodes and trees
OP("nnew")
{
    std::string sn = a.s(); CSpacePtr s = get(spaces, sn); std::string k = a.s();
    CSpaceNodePtr n = s->createNewNode();
    loose[k] = n;
    return Arr().add((int)n->ID).add(s->getNode(n->ID) == n && n->allocated && n->children.empty());
}
OP("nrel") { CSpacePtr s = get(spaces, a.s()); std::string k = a.s(); if (!loose.count(k)) return "none"; s->removeNode(loose[k]); loose.erase(k); return 0; }
static CSpaceNodePtr nth(CSpaceTreePtr t, int k)
{
    std::vector<CSpaceNodePtr> ns = t->getNodes();
    if (ns.empty()) throw std::logic_error("script: tree is empty");
    return ns[k % ns.size()];
}
OP("tnew") { CSpacePtr s = get(spaces, a.s()); std::string t = a.s(); bool u = a.b(); trees[t].reset(new CSpaceTree(s)); trees[t]->setUpdateChildren(u); return 0; }
OP("tupd") { CSpaceTreePtr t = get(trees, a.s()); t->setUpdateChildren(a.b()); return t->getUpdateChildren(); }
OP("tapp")
{
    CSpaceTreePtr t = get(trees, a.s()); int k = a.n(); Eigen::VectorXf c = cfg(a); bool d = a.b();
    CSpaceNodePtr n = t->appendNode(c, k < 0 || t->getNrOfNodes() == 0 ? -1 : (int)nth(t, k)->ID, d);
    return Arr().add((int)n->ID).add(t->getNode(n->ID) == n && t->hasNode(n) && t->getLastAddedNode() == n).add(d ? hundredth(n->obstacleDistance / 10) : (n->obstacleDistance == -1.0f ? -1 : BAD));
}
// operations on a node of a tree without nodes do nothing
#define SOME if (t->getNrOfNodes() == 0) return "empty"
OP("tpath") { CSpaceTreePtr t = get(trees, a.s()); SOME; int k = a.n(); Eigen::VectorXf c = cfg(a); int id = -7; bool r = t->appendPath(nth(t, k), c, &id); return Arr().add(r).add(id); }
OP("tpathl")
{
    std::string sn = a.s(); CSpacePtr s = get(spaces, sn); CSpaceTreePtr t = get(trees, a.s()); SOME; int k = a.n(); std::vector<Eigen::VectorXf> cs = cfgs(a); int id = -7;
    CSpacePathPtr p(new CSpacePath(s));
    for (auto& c : cs) p->addPoint(c);
    bool r = t->appendPath(nth(t, k), p, &id);
    return Arr().add(r).add(id);
}
OP("tuntil") { CSpaceTreePtr t = get(trees, a.s()); SOME; int k = a.n(); Eigen::VectorXf c = cfg(a); int id = -7; bool r = t->appendPathUntilCollision(nth(t, k), c, &id); return Arr().add(r).add(id); }
// removes a node that has no children
OP("trem")
{
    CSpaceTreePtr t = get(trees, a.s()); SOME; int k = a.n();
    CSpaceNodePtr n = nth(t, k);
    for (auto& m : t->getNodes()) if (m->parentID == (int)n->ID) return false;
    t->removeNode(n);
    return true;
}
OP("tnn")
{
    CSpaceTreePtr t = get(trees, a.s()); SOME; Eigen::VectorXf c = cfg(a); float d = -1;
    unsigned id = t->getNearestNeighborID(c, &d);
    CSpaceNodePtr n = t->getNearestNeighbor(c);
    return Arr().add((int)id).add(hundredth(d)).add(n && n->ID == id);
}
OP("tsol")
{
    CSpaceTreePtr t = get(trees, a.s()); SOME; int k = a.n(), l = a.n();
    CSpacePathPtr p(new CSpacePath(t->getCSpace()));
    bool r = t->createPath(nth(t, k), nth(t, l), p);
    return Obj().set("r", r).set("p", points(p));
}
OP("tlen") { CSpaceTreePtr t = get(trees, a.s()); return hundredth(t->getTreeLength(a.b())); }
OP("treset") { get(trees, a.s())->reset(); return 0; }
OP("sreset")
{
    CSpacePtr s = get(spaces, a.s());
    for (auto& t : trees) if (t.second->getCSpace() == s) t.second->reset();
    s->reset();
    return 0;
}
OP("tsave")
{
    CSpaceTreePtr t = get(trees, a.s()); std::string f = a.s();
    bool r = t->saveAllNodes(f.c_str());
    std::ifstream is(f); std::string l; std::vector<std::string> ls;
    while (std::getline(is, l)) if (!l.empty() && l[0] != '#') ls.push_back(l);
    Arr ns;
    for (size_t i = 3; i < ls.size(); i++)
    {
        std::istringstream x(ls[i]); int id, par; x >> id; Eigen::VectorXf c(ang.size());
        for (size_t j = 0; j < ang.size(); j++) { float v = 0; x >> v; c[j] = v; }
        x >> par; if (!x) par = BAD;
        ns.add(Arr().add(id).add(par < 0 ? J(-1) : J(par)).add(out(c)));
    }
    return Obj().set("r", r).set("set", ls.size() > 2 ? ls[0] : "").set("dim", ls.size() > 2 ? atoi(ls[1].c_str()) : -1).set("n", ls.size() > 2 ? atoi(ls[2].c_str()) : -1).set("ns", ns);
}
// checkTree
OP("tcheck") { CSpaceTreePtr t = get(trees, a.s()); return t->getCSpace()->checkTree(t); }
#include "sabpath.h"
#include "sabplan.h"
int main(int argc, char** argv) { return drv::main(argc, argv); }
