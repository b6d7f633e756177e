// Concurrent access to robots under a controlled scheduler: at most one thread proceeds at a time, and the
// nodes of the robots hand control to the scheduler whenever the code under test calls one of their virtual functions.
#include "drv.h"
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/RobotNodeFixed.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
using namespace VirtualRobot;
using namespace drv;

// ------------------------------------------------------------------ scheduler
struct Thr
{
    std::thread th;
    int st = 0;             // 0 not there yet, 1 at a gate, 2 running, 3 done
    bool go = false, blocked = false;
    pid_t tid = 0;
    std::vector<ReadLockPtr> locks;
};
static std::mutex mx;
static std::condition_variable cvCtl, cvThr;
static thread_local Thr* me = nullptr;
static Arr hist;

static void gate()
{
    if (!me) return;
    std::unique_lock<std::mutex> l(mx);
    me->st = 1;
    cvCtl.notify_all();
    cvThr.wait(l, [] { return me->go; });
    me->go = false;
    me->st = 2;
}
static void log(int t, int c, int k, const J& v)
{
    std::unique_lock<std::mutex> l(mx);
    hist.add(Obj().set("t", t).set("c", c).set("k", k).set("v", v));
}
static bool asleep(pid_t tid)
{
    char f[80], b[600];
    snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int)tid);
    int d = open(f, O_RDONLY);
    if (d < 0) return false;
    int n = read(d, b, sizeof b - 1);
    close(d);
    if (n <= 0) return false;
    b[n] = 0;
    char* p = strrchr(b, ')');
    return p && p[2] == 'S';
}

// control is handed over, too, before the lock of a robot is taken
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*fn)(pthread_mutex_t*);
    static const fn real = (fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__owner != me->tid) gate();
    return real(m);
}

// ------------------------------------------------------------------ nodes that hand over control
#define GATED(CLS, BASE) \
    struct CLS : public BASE \
    { \
        using BASE::BASE; \
        float getJointValue() const override { gate(); float r = BASE::getJointValue(); gate(); return r; } \
        Eigen::Matrix4f getGlobalPose() const override { gate(); Eigen::Matrix4f r = BASE::getGlobalPose(); gate(); return r; } \
        void setJointValueNoUpdate(float q) override { BASE::setJointValueNoUpdate(q); gate(); } \
        void updatePose(bool c = true) override { gate(); BASE::updatePose(c); } \
        void updatePose(const Eigen::Matrix4f& p, bool c = true) override { gate(); BASE::updatePose(p, c); } \
    };
GATED(GRev, RobotNodeRevolute)
GATED(GPris, RobotNodePrismatic)
GATED(GFix, RobotNodeFixed)

struct Nd { std::string par, typ; };
struct Rb { RobotPtr r; std::map<std::string, Nd> nd; std::vector<RobotNodePtr> order; std::map<std::string, RobotNodeSetPtr> sets; };
static std::map<std::string, Rb> R;

struct PO { std::string r, o, n, m; std::vector<std::string> ns; std::vector<double> k; Eigen::Matrix4f p; };
static std::map<int, std::vector<PO>> P;

static Rb& rob(const std::string& n) { auto k = R.find(n); if (k == R.end()) throw std::logic_error("script: no robot " + n); return k->second; }
static RobotNodePtr node(Rb& b, const std::string& n) { RobotNodePtr x = b.r->getRobotNode(n); if (!x) throw std::logic_error("script: no node " + n); return x; }
static float val(const RobotNodePtr& n, double v) { return n->isTranslationalJoint() ? (float)v : (float)rad(v); }
static J back(const RobotNodePtr& n, double v) { return n->isTranslationalJoint() ? jI(v, .05) : jI(deg(v), .02); }

OP("reset") { R.clear(); P.clear(); return J(true); }
OP("robot") { std::string n = a.s(); R[n].r.reset(new LocalRobot(n, "conc")); return J(true); }
OP("node")
{
    Rb& b = rob(a.s());
    std::string n = a.s(), par = a.s(), typ = a.s();
    Eigen::Vector3f ax = a.v3();
    Eigen::Matrix4f loc = a.pose();
    double lo = a.d(), hi = a.d();
    SceneObject::Physics ph;
    ph.massKg = a.d();
    ph.localCoM = a.v3();
    RobotNodePtr x;
    if (typ == "rev") x.reset(new GRev(b.r, n, rad(lo), rad(hi), loc, ax, VisualizationNodePtr(), CollisionModelPtr(), 0.f, ph));
    else if (typ == "pris") x.reset(new GPris(b.r, n, lo, hi, loc, ax, VisualizationNodePtr(), CollisionModelPtr(), 0.f, ph));
    else x.reset(new GFix(b.r, n, loc, VisualizationNodePtr(), CollisionModelPtr(), ph));
    b.r->registerRobotNode(x);
    b.nd[n] = Nd{par, typ};
    b.order.push_back(x);
    return J(true);
}
OP("build")
{
    Rb& b = rob(a.s());
    std::map<RobotNodePtr, std::vector<std::string>> ch;
    RobotNodePtr root;
    for (auto& x : b.order)
    {
        if (b.nd[x->getName()].par == "-") root = x;
        else ch[node(b, b.nd[x->getName()].par)].push_back(x->getName());
    }
    return J(RobotFactory::initializeRobot(b.r, b.order, ch, root));
}
OP("set")
{
    std::string rn = a.s(), s = a.s();
    Rb& b = rob(rn);
    std::vector<std::string> ns = a.strs();
    std::string kin = a.s();
    b.sets[s] = RobotNodeSet::createRobotNodeSet(b.r, s, ns, kin == "-" ? "" : kin, ns.back(), true);
    return J(true);
}
OP("p")
{
    int t = a.n();
    PO p;
    p.r = a.s(); p.o = a.s(); p.n = a.s(); p.m = a.s(); p.ns = a.strs(); p.k = a.nums(); p.p = a.pose();
    rob(p.r);
    P[t].push_back(p);
    return J(true);
}

static J done(bool ok) { return Arr().add(ok ? 0 : -1); }
static J vals(Rb& b, const std::vector<std::string>& ns, const std::map<std::string, float>& m)
{
    Arr r;
    for (auto& n : ns) { auto k = m.find(n); r.add(k == m.end() ? J(BAD) : back(node(b, n), k->second)); }
    return r;
}
static J com(const Eigen::Vector3f& v, double m) { return vec3(v * (float)m, .3); }

static J perform(Thr& t, PO& p)
{
    Rb& b = rob(p.r);
    RobotPtr r = b.r;
    std::vector<RobotNodePtr> ns;
    if (p.o != "cfgo") for (auto& n : p.ns) ns.push_back(node(b, n));
    RobotNodePtr n = p.n == "-" || p.n == "nowhere" ? RobotNodePtr() : (b.sets.count(p.n) ? RobotNodePtr() : node(b, p.n));
    RobotNodeSetPtr s = b.sets.count(p.n) ? b.sets[p.n] : RobotNodeSetPtr();
    std::vector<float> v;
    for (size_t k = 0; k < p.k.size() && k < ns.size(); k++) v.push_back(val(ns[k], p.k[k]));
    Eigen::VectorXf ev(v.size());
    for (size_t k = 0; k < v.size(); k++) ev[k] = v[k];
    std::map<std::string, float> ms;
    std::map<RobotNodePtr, float> mn;
    for (size_t k = 0; k < v.size(); k++) { ms[p.ns[k]] = v[k]; mn[ns[k]] = v[k]; }
    const std::string& o = p.o;
    auto cfg = [&] { return RobotConfigPtr(new RobotConfig(r, "c", mn)); };
    try
    {
        // locks
        if (o == "rlock") { t.locks.push_back(r->getReadLock()); return done(true); }
        if (o == "wlock") { t.locks.push_back(r->getWriteLock()); return done(true); }
        if (o == "unlock") { t.locks.pop_back(); return done(true); }
        // writers
        if (o == "node") { ns[0]->setJointValue(v[0]); return done(true); }
        if (o == "rob") { r->setJointValue(p.ns[0], v[0]); return done(true); }
        if (o == "robn") { r->setJointValue(ns[0], v[0]); return done(true); }
        if (o == "map") { r->setJointValues(ms); return done(true); }
        if (o == "mapn") { r->setJointValues(mn); return done(true); }
        if (o == "mapu") { ms["nowhere"] = 0; r->setJointValues(ms); return done(true); }
        if (o == "vec") { r->setJointValues(ns, v); return done(true); }
        if (o == "set") { s->setJointValues(v); return done(true); }
        if (o == "seteig") { s->setJointValues(ev); return done(true); }
        if (o == "setcfg") { s->setJointValues(cfg()); return done(true); }
        if (o == "rset") { r->setJointValues(s, v); return done(true); }
        if (o == "rseteig") { r->setJointValues(s, ev); return done(true); }
        if (o == "rsetcfg") { r->setJointValues(s, cfg()); return done(true); }
        if (o == "cfg") { r->setJointValues(cfg()); return done(true); }
        if (o == "cfg0") { return done(cfg()->setJointValues()); }
        if (o == "cfgr") { return done(cfg()->setJointValues(r)); }
        if (o == "cfgo")
        {
            // a configuration of another robot is applied to this one
            Rb& c = rob(p.m);
            std::map<RobotNodePtr, float> m;
            for (size_t k = 0; k < p.ns.size(); k++) { RobotNodePtr x = node(c, p.ns[k]); m[x] = val(x, p.k[k]); }
            return done(RobotConfigPtr(new RobotConfig(c.r, "c", m))->setJointValues(r));
        }
        if (o == "setconfig") { return done(r->setConfig(cfg())); }
        if (o == "traj") { TrajectoryPtr j(new Trajectory(s, "t")); j->addPoint(ev); j->addPoint(ev); r->setJointValues(j, 0.f); return done(true); }
        if (o == "short") { v.pop_back(); s->setJointValues(v); return done(true); }
        if (o == "pose") { r->setGlobalPose(p.p); return done(true); }
        if (o == "pose0") { boost::dynamic_pointer_cast<LocalRobot>(r)->setGlobalPose(p.p, false); return done(true); }
        if (o == "apply") { r->applyJointValues(); return done(true); }
        if (o == "fornode") { r->setGlobalPoseForRobotNode(n, p.p); return done(true); }
        if (o == "posfornode") { r->setGlobalPositionForRobotNode(n, p.p.block<3, 1>(0, 3)); return done(true); }
        if (o == "nonode") { r->setGlobalPoseForRobotNode(RobotNodePtr(), p.p); return done(true); }
        // readers
        if (o == "q") return Arr().add(back(n, n->getJointValue()));
        if (o == "gp") return drv::pose(n->getGlobalPose());
        if (o == "gpos") return vec3(n->getGlobalPosition());
        if (o == "gpose") return drv::pose(n->getGlobalPose(p.p));
        if (o == "inroot") return drv::pose(n->getPoseInRootFrame());
        if (o == "posroot") return vec3(n->getPositionInRootFrame());
        if (o == "inrootp") return drv::pose(n->getPoseInRootFrame(p.p));
        if (o == "local") return drv::pose(n->toLocalCoordinateSystem(p.p));
        if (o == "global") return drv::pose(n->toGlobalCoordinateSystem(p.p));
        if (o == "base") return drv::pose(r->getGlobalPose());
        if (o == "where") return drv::pose(r->getGlobalPoseForRobotNode(n, p.p));
        if (o == "getset") { std::vector<float> w; s->getJointValues(w); std::map<std::string, float> m; for (size_t k = 0; k < w.size(); k++) m[s->getNode(k)->getName()] = w[k]; return vals(b, p.ns, m); }
        if (o == "getsetv") { std::vector<float> w = s->getJointValues(); std::map<std::string, float> m; for (size_t k = 0; k < w.size(); k++) m[s->getNode(k)->getName()] = w[k]; return vals(b, p.ns, m); }
        if (o == "getseteig") { Eigen::VectorXf w = s->getJointValuesEigen(); std::map<std::string, float> m; for (int k = 0; k < w.rows(); k++) m[s->getNode(k)->getName()] = w[k]; return vals(b, p.ns, m); }
        if (o == "getsetcfg") { RobotConfigPtr c(new RobotConfig(r, "c")); s->getJointValues(c); return vals(b, p.ns, c->getRobotNodeJointValueMap()); }
        if (o == "getsetmap") return vals(b, p.ns, s->getJointValueMap());
        if (o == "getcfg") return vals(b, p.ns, r->getConfig()->getRobotNodeJointValueMap());
        if (o == "com") return com(r->getCoMGlobal(), r->getMass());
        if (o == "scom") return com(s->getCoM(), s->getMass());
        if (o == "axis") { RobotNodePtr c = p.m == "-" ? RobotNodePtr() : node(b, p.m); auto x = boost::dynamic_pointer_cast<RobotNodeRevolute>(n); return vec3(x->getJointRotationAxis(c), .01); }
        if (o == "dir") { RobotNodePtr c = p.m == "-" ? RobotNodePtr() : node(b, p.m); auto x = boost::dynamic_pointer_cast<RobotNodePrismatic>(n); return vec3(x->getJointTranslationDirection(c), .01); }
        // in the frame of a node of another robot: nothing to compare, but it has to end
        if (o == "axisof") { Rb& c = rob(p.m); auto x = boost::dynamic_pointer_cast<RobotNodeRevolute>(n); x->getJointRotationAxis(c.r->getRootNode()); return done(true); }
        if (o == "dirof") { Rb& c = rob(p.m); auto x = boost::dynamic_pointer_cast<RobotNodePrismatic>(n); x->getJointTranslationDirection(c.r->getRootNode()); return done(true); }
        if (o == "clone")
        {
            RobotPtr c = r->clone("c");
            std::map<std::string, float> m;
            Arr res;
            for (auto& x : p.ns) res.add(back(node(b, x), c->getRobotNode(x)->getJointValue()));
            Eigen::Matrix4f g = c->getRobotNode(p.n)->getGlobalPose();
            for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) res.add(jI(g(k, l), 2e-3));
            for (int k = 0; k < 3; k++) res.add(jI(g(k, 3), .05));
            return res;
        }
    }
    catch (const VirtualRobotException&) { return done(false); }
    throw std::logic_error("script: no operation " + o);
}

OP("go")
{
    unsigned long seed = a.n();
    int keep = a.n();
    std::vector<double> want = a.nums();
    hist = Arr();
    std::vector<std::unique_ptr<Thr>> T;
    std::vector<int> ids;
    std::string err;
    for (auto& p : P)
    {
        T.emplace_back(new Thr);
        ids.push_back(p.first);
        Thr* t = T.back().get();
        std::vector<PO>* ops = &p.second;
        int id = p.first;
        t->th = std::thread([t, ops, id, &err]
        {
            me = t;
            t->tid = syscall(SYS_gettid);
            int c = 0;
            for (auto& o : *ops)
            {
                gate();
                log(id, ++c, 0, Arr());
                J v;
                try { v = perform(*t, o); }
                catch (const std::exception& e) { std::unique_lock<std::mutex> l(mx); err = e.what(); v = Arr().add(-2); }
                log(id, c, 1, v);
            }
            t->locks.clear();
            me = nullptr;
            std::unique_lock<std::mutex> l(mx);
            t->st = 3;
            cvCtl.notify_all();
        });
    }
    size_t cur = 0, pos = 0, quiet = 0;
    auto rnd = [&seed] { seed = seed * 6364136223846793005UL + 1442695040888963407UL; return (unsigned)(seed >> 33); };
    std::unique_lock<std::mutex> l(mx);
    while (true)
    {
        // until every thread waits at a gate, waits for a lock, or has ended
        while (true)
        {
            bool busy = false;
            for (auto& t : T)
            {
                if (t->st == 1 || t->st == 3) { t->blocked = false; continue; }
                if (t->st == 0) { busy = true; continue; }
                bool s = true;
                int n = t->blocked ? 1 : 3;
                l.unlock();
                for (int k = 0; s && k < n; k++) { if (k) usleep(60); s = asleep(t->tid); }
                l.lock();
                if (t->st != 2) { t->blocked = false; continue; }
                t->blocked = s;
                busy = busy || !s;
            }
            if (!busy) break;
            cvCtl.wait_for(l, std::chrono::microseconds(40));
        }
        std::vector<size_t> can;
        bool all = true;
        for (size_t k = 0; k < T.size(); k++)
        {
            if (T[k]->st == 1) can.push_back(k);
            all = all && T[k]->st == 3;
        }
        if (all) break;
        if (can.empty())
        {
            // everybody waits for a lock
            if (++quiet > 40) { fprintf(stderr, "deadlock\n"); _exit(97); }
            cvCtl.wait_for(l, std::chrono::milliseconds(50));
            continue;
        }
        quiet = 0;
        size_t k = T.size();
        if (pos < want.size())
        {
            int w = (int)want[pos++];
            for (size_t c : can) if (ids[c] == w) k = c;
        }
        else if (T[cur]->st == 1 && (int)(rnd() % 100) < keep) k = cur;
        if (k == T.size()) k = can[rnd() % can.size()];
        cur = k;
        T[k]->st = 2;
        T[k]->go = true;
        cvThr.notify_all();
    }
    l.unlock();
    for (auto& t : T) t->th.join();
    P.clear();
    if (!err.empty()) throw std::logic_error(err);
    Obj end;
    for (auto& b : R)
    {
        Obj q, g;
        for (auto& n : b.second.order)
        {
            g.set(n->getName(), drv::pose(n->getGlobalPose()));
            if (n->isRotationalJoint() || n->isTranslationalJoint()) q.set(n->getName(), back(n, n->getJointValue()));
        }
        end.set(b.first, Obj().set("q", q).set("g", g).set("p", drv::pose(b.second.r->getGlobalPose())));
    }
    return Obj().set("h", hist).set("end", end);
}

int main(int argc, char** argv) { return drv::main(argc, argv); }
