// Driver for robots: kinematics, joint values, node sets, configurations, clones, files (C01 C02 C04 C05 C07 C08 C20)
#include "robproj.h"
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/LinkedCoordinate.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
using namespace VirtualRobot;
using namespace drv;
using namespace proj;

static std::map<std::string, RobotPtr> R;
static std::map<std::string, RobotConfigPtr> C;
static std::map<std::string, RobotNodeSetPtr> S;      // unregistered sets, by robot/name
struct Lnk { boost::shared_ptr<LinkedCoordinate> c; RobotPtr r; RobotNodePtr f; Eigen::Matrix4d p; };
static std::map<std::string, Lnk> L;      // linked coordinates with what they have to hold
static bool wantFull = false, wantCfg = false, wantDyn = true;

static RobotPtr rob(Args& a) { std::string k = a.s(); if (!R.count(k)) throw std::runtime_error("no robot " + k); return R[k]; }
static RobotNodePtr node(const RobotPtr& r, Args& a)
{
    std::string k = a.s();
    RobotNodePtr n = r->getRobotNode(k);
    if (!n) throw std::runtime_error("no node " + k);
    return n;
}
static RobotNodeSetPtr rns(const std::string& rid, const RobotPtr& r, const std::string& k)
{
    if (S.count(rid + "/" + k)) return S[rid + "/" + k];
    RobotNodeSetPtr s = r->getRobotNodeSet(k);
    if (!s) throw std::runtime_error("no set " + k);
    return s;
}
// a map of names to values
static std::map<std::string, double> smap(Args& a)
{
    std::map<std::string, double> m; int k = a.n();
    while (k-- > 0) { std::string n = a.s(); m[n] = a.d(); }
    return m;
}
static RobotConfigPtr mkcfg(const RobotPtr& r, const std::map<std::string, double>& m)
{
    RobotConfigPtr c(new RobotConfig(r, "cfg"));
    for (auto& kv : m)
    {
        RobotNodePtr n = r->getRobotNode(kv.first);
        if (n) c->setConfig(n, fromSpec(n, kv.second)); else c->setConfig(kv.first, (float)kv.second);
    }
    return c;
}
static std::vector<float> conv(const RobotNodeSetPtr& s, const std::vector<double>& v)
{
    std::vector<float> r;
    auto ns = s->getAllRobotNodes();
    for (size_t i = 0; i < v.size(); i++) r.push_back(i < ns.size() ? fromSpec(ns[i], v[i]) : (float)v[i]);
    return r;
}
static Eigen::VectorXf eig(const std::vector<float>& v) { Eigen::VectorXf e(v.size()); for (size_t i = 0; i < v.size(); i++) e[i] = v[i]; return e; }
static J unconv(const RobotNodeSetPtr& s, const std::vector<float>& v)
{
    Arr a; auto ns = s->getAllRobotNodes();
    for (size_t i = 0; i < v.size(); i++) a.add(i < ns.size() ? jq(ns[i], v[i]) : J(BAD));
    return a;
}

OP("load")
{
    std::string id = a.s(), f = a.s(); int how = a.n(); wantFull = true;
    RobotPtr r;
    if (how == 1)
    {
        std::ifstream in(f.c_str()); std::stringstream ss; ss << in.rdbuf();
        r = RobotIO::createRobotFromString(ss.str(), f.substr(0, f.rfind('/')), RobotIO::eFull);
    }
    else r = RobotIO::loadRobot(f, how == 2 ? RobotIO::eCollisionModel : how == 3 ? RobotIO::eStructure : RobotIO::eFull);
    if (!r) return J(false);
    R[id] = r;
    return J(true);
}
OP("loadbad") { RobotPtr r = RobotIO::loadRobot(a.s(), RobotIO::eFull); if (!r) throw std::runtime_error("refused"); return J(true); }
OP("save")
{
    RobotPtr r = rob(a); std::string dir = a.s(), f = a.s(); bool e = a.b(), s = a.b(), n = a.b();
    bool ok = RobotIO::saveXML(r, f, dir, "models", e, s, n, true); wantFull = true; return J(ok);
}
OP("reset") { L.clear(); R.clear(); C.clear(); S.clear(); wantDyn = true; return J(true); }
OP("dyn?") { wantDyn = a.b(); return J(true); }
OP("del") { R.erase(a.s()); return J(true); }
OP("clone")
{
    RobotPtr r = rob(a); std::string id = a.s(); int sc = a.n(); wantFull = true;
    R[id] = sc == 0 ? r->clone() : sc == 1000 ? r->clone(id) : r->clone(id, CollisionCheckerPtr(), sc / 1000.0f);
    return J((bool)R[id]);
}
OP("sub")
{
    RobotPtr r = rob(a); std::string id = a.s(); RobotNodePtr n = node(r, a); bool s = a.b(), e = a.b(); wantFull = true;
    RobotPtr x = r->extractSubPart(n, "subtype", id, s, e);
    if (x) R[id] = x;
    return J((bool)x);
}
OP("full") { wantFull = true; return J(true); }

OP("q") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setJointValue(fromSpec(n, a.d())); return J(true); }
OP("qr") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); r->setJointValue(n->getName(), fromSpec(n, a.d())); return J(true); }
OP("qn") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); r->setJointValue(n, fromSpec(n, a.d())); return J(true); }
OP("qnou") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setJointValueNoUpdate(fromSpec(n, a.d())); return J(true); }
OP("apply") { rob(a)->applyJointValues(); return J(true); }
OP("qmap")
{
    RobotPtr r = rob(a); int how = a.n(); auto m = smap(a);
    std::map<std::string, float> s; std::map<RobotNodePtr, float> p; std::vector<RobotNodePtr> ns; std::vector<float> vs;
    for (auto& kv : m)
    {
        RobotNodePtr n = r->getRobotNode(kv.first);
        float v = n ? fromSpec(n, kv.second) : (float)kv.second;
        s[kv.first] = v;
        if (n) { p[n] = v; ns.push_back(n); vs.push_back(v); }
    }
    if (how == 0) r->setJointValues(s); else if (how == 1) r->setJointValues(p); else r->setJointValues(ns, vs);
    return J(true);
}
OP("qset")
{
    std::string id = a.s(); RobotPtr r = R.at(id); int how = a.n(); RobotNodeSetPtr s = rns(id, r, a.s()); auto v = conv(s, a.nums());
    if (how == 0) s->setJointValues(v); else if (how == 1) s->setJointValues(eig(v));
    else if (how == 2) r->setJointValues(s, v); else r->setJointValues(s, eig(v));
    return J(true);
}
OP("qcfgset")
{
    std::string id = a.s(); RobotPtr r = R.at(id); int how = a.n(); RobotNodeSetPtr s = rns(id, r, a.s()); auto c = mkcfg(r, smap(a));
    if (how == 0) s->setJointValues(c); else r->setJointValues(s, c);
    return J(true);
}
OP("qcfg")
{
    RobotPtr r = rob(a); int how = a.n(); auto c = mkcfg(r, smap(a));
    if (how == 0) return J(c->setJointValues());
    if (how == 1) { r->setJointValues(c); return J(true); }
    if (how == 2) return J(r->setConfig(c));
    return J(c->setJointValues(r));
}
OP("qtraj")
{
    std::string id = a.s(); RobotPtr r = R.at(id); RobotNodeSetPtr s = rns(id, r, a.s());
    auto p1 = conv(s, a.nums()), p2 = conv(s, a.nums()); float t = a.n() / 4.0f;
    TrajectoryPtr tr(new Trajectory(s, "t"));
    tr->addPoint(eig(p1)); tr->addPoint(eig(p2));
    r->setJointValues(tr, t);
    return J(true);
}
OP("pose") { RobotPtr r = rob(a); r->setGlobalPose(a.pose()); return J(true); }
OP("poseb") { RobotPtr r = rob(a); r->setGlobalPose(a.pose(), true); return J(true); }
OP("poseno") { RobotPtr r = rob(a); r->setGlobalPose(a.pose(), false); return J(true); }
OP("posenode") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); Eigen::Matrix4f p = a.pose(); r->setGlobalPoseForRobotNode(n, p); return J(residual(n->getGlobalPose(), p, 0.2)); }
OP("posnode")
{
    RobotPtr r = rob(a); RobotNodePtr n = node(r, a); Eigen::Vector3f p = a.v3(); r->setGlobalPositionForRobotNode(n, p);
    return J((n->getGlobalPosition() - p).norm() > 0.2 ? 1 : 0);
}
OP("upv") { RobotPtr r = rob(a); r->setUpdateVisualization(a.b()); return J(true); }
OP("upc") { RobotPtr r = rob(a); r->setUpdateCollisionModel(a.b()); return J(true); }
OP("upvn") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setUpdateVisualization(a.b()); return J(true); }
OP("limits") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); float lo = fromSpec(n, a.d()); n->setJointLimits(lo, fromSpec(n, a.d())); wantFull = true; return J(true); }
OP("limitless") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setLimitless(a.b()); wantFull = true; return J(true); }
OP("enforce") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setEnforceJointLimits(a.b()); wantFull = true; return J(true); }
OP("prop")
{
    RobotPtr r = rob(a); RobotNodePtr n = node(r, a); std::string t = a.s(); double f = a.d();
    n->propagateJointValue(t, (float)f); wantFull = true; return J(true);
}
OP("dyn")
{
    RobotPtr r = rob(a); RobotNodePtr n = node(r, a);
    n->setMaxVelocity(a.d() / 1000.0); n->setMaxAcceleration(a.d() / 1000.0); n->setMaxTorque(a.d() / 1000.0); wantFull = true; return J(true);
}
OP("mass") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); n->setMass(a.d() / 1000.0); wantFull = true; return J(true); }
OP("loc") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); Eigen::Matrix4f p = a.pose(); n->setLocalTransformation(p); wantFull = true; return J(true); }

// queries
OP("delta") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); return jq(n, n->getDelta(fromSpec(n, a.d()))); }
OP("inlim") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); return J(n->checkJointLimits(fromSpec(n, a.d()))); }
OP("resp") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); float v = fromSpec(n, a.d()); n->respectJointLimits(v); return jq(n, v); }
static Lnk& lnk(Args& a) { std::string k = a.s(); if (!L.count(k)) throw std::logic_error("no coordinate " + k); return L[k]; }
static J lattice(const Eigen::Matrix4f& m) { return onLattice(m) ? pose(m) : (J)Arr(); }
static Eigen::Matrix4d fromTo(const RobotNodePtr& n, const RobotNodePtr& m) { return m->getGlobalPose().cast<double>().inverse() * n->getGlobalPose().cast<double>(); }
OP("lnew") { std::string k = a.s(); RobotPtr r = rob(a); L[k] = Lnk{ boost::shared_ptr<LinkedCoordinate>(new LinkedCoordinate(r)), r, RobotNodePtr(), Eigen::Matrix4d::Identity() }; return 0; }
OP("lcopy")
{
    Lnk x = lnk(a); std::string d = a.s(); int how = a.n();
    Lnk y = x;
    if (how) { y.c.reset(new LinkedCoordinate(L.count(d) ? L[d].r : x.r)); *y.c = *x.c; } else y.c.reset(new LinkedCoordinate(*x.c));
    L[d] = y;
    return 0;
}
OP("lset")
{
    Lnk& l = lnk(a); RobotPtr r = rob(a); std::string n = a.s(); int how = a.n(); Eigen::Matrix4f p = a.pose();
    Eigen::Vector3f v = p.block<3, 1>(0, 3);
    if (how == 0) l.c->set(r->getRobotNode(n), p); else if (how == 1) l.c->set(n, p);
    else if (how == 2) l.c->set(r->getRobotNode(n), v); else l.c->set(n, v);
    l.f = l.r->getRobotNode(n);
    l.p = Eigen::Matrix4d::Identity();
    if (how < 2) l.p = p.cast<double>(); else l.p.block<3, 1>(0, 3) = v.cast<double>();
    return 0;
}
OP("lchg")
{
    Lnk& l = lnk(a); RobotPtr r = rob(a); std::string n = a.s(); int how = a.n();
    RobotNodePtr m = l.r->getRobotNode(n);
    Eigen::Matrix4d p = Eigen::Matrix4d::Identity();
    if (l.f && m) p = fromTo(l.f, m) * l.p;
    if (how) l.c->changeFrame(n); else l.c->changeFrame(r->getRobotNode(n));
    l.f = m;
    l.p = p;
    return 0;
}
OP("lin")
{
    Lnk& l = lnk(a); RobotPtr r = rob(a); std::string n = a.s(); int how = a.n();
    Eigen::Matrix4f p = how ? l.c->getInFrame(n) : l.c->getInFrame(r->getRobotNode(n));
    RobotNodePtr m = l.r->getRobotNode(n);
    return Obj().set("p", lattice(p)).set("dev", l.f && m ? residual(p, (fromTo(l.f, m) * l.p).cast<float>(), 0.2) : 1);
}
OP("ltr")
{
    RobotPtr r = rob(a), t = rob(a); std::string n = a.s(), m = a.s();
    RobotNodePtr x = r->getRobotNode(n), y = t->getRobotNode(m);
    Eigen::Matrix4f p = LinkedCoordinate::getCoordinateTransformation(x, y, r);
    return Obj().set("p", lattice(p)).set("dev", x && y ? residual(p, fromTo(x, y).cast<float>(), 0.2) : 1);
}
OP("frames")
{
    // transformation between two nodes, by every accessor
    RobotPtr r = rob(a); RobotNodePtr n = node(r, a), m = node(r, a); Eigen::Matrix4f p = a.pose();
    Eigen::Matrix4d gn = n->getGlobalPose().cast<double>(), gm = m->getGlobalPose().cast<double>(), P = p.cast<double>();
    Eigen::Vector3f v(3, -5, 7);
    Eigen::Matrix4f nm_ = (gn.inverse() * gm).cast<float>();
    int e = 0, k = 0; 
    auto t = [&](bool good) { k++; if (!good && !e) e = k; };
    auto z = [&](const Eigen::Matrix4f & x, const Eigen::Matrix4d & y) { t(residual(x, y.cast<float>()) == 0); };
    auto zv = [&](const Eigen::Vector3f & x, const Eigen::Vector3f & y) { t((x - y).norm() < 0.2); };
    z(n->getTransformationTo(m), nm_.cast<double>());
    z(n->getTransformationFrom(m), gm.inverse() * gn);
    z(n->toLocalCoordinateSystem(p), gn.inverse() * P);
    z(n->toGlobalCoordinateSystem(p), gn * P);
    z(n->transformTo(m, p), gn.inverse() * gm * P);
    Eigen::Vector4d vh(3, -5, 7, 1);
    zv(n->toLocalCoordinateSystemVec(v), (gn.inverse() * vh).head<3>().cast<float>());
    zv(n->toGlobalCoordinateSystemVec(v), (gn * vh).head<3>().cast<float>());
    zv(n->transformTo(m, v), (gn.inverse() * gm * vh).head<3>().cast<float>());
    z(n->getPoseInRootFrame(p), r->getRootNode()->getGlobalPose().cast<double>().inverse() * gn * P);
    t(((n->getOrientationInRootFrame(Eigen::Matrix3f(p.block<3, 3>(0, 0)))).cast<double>() - (r->getRootNode()->getGlobalPose().cast<double>().inverse() * gn * P).block<3, 3>(0, 0)).norm() < 1e-3);
    t(((n->getGlobalOrientation(Eigen::Matrix3f(p.block<3, 3>(0, 0)))).cast<double>() - (gn * P).block<3, 3>(0, 0)).norm() < 1e-3);
    z(n->getGlobalPose(p), gn * P);
    zv(n->getGlobalPosition(v), (gn * vh).head<3>().cast<float>());
    zv(n->getGlobalDirection(v), ((gn * vh).head<3>() - gn.block<3, 1>(0, 3)).cast<float>());
    // placing the robot for a node does not move it yet
    z(r->getGlobalPoseForRobotNode(n, p), P * gn.inverse() * r->getGlobalPose().cast<double>());
    return J(e);
}

// node sets
static J setInfo(const RobotNodeSetPtr& s, const RobotPtr& r)
{
    Obj o;
    Arr a; for (auto& n : s->getAllRobotNodes()) a.add(nm(n));
    o.set("nodes", a).set("root", nm(s->getKinematicRoot())).set("tcp", nm(s->getTCP()));
    o.set("size", (int)s->getSize());
    Arr names; for (auto& n : s->getNodeNames()) names.add(n);
    o.set("names", names);
    Arr has, hasn; for (auto& n : r->getRobotNodes()) { if (s->hasRobotNode(n)) has.add(n->getName()); if (s->hasRobotNode(n->getName())) hasn.add(n->getName()); }
    o.set("has", has).set("hasn", hasn);
    Arr at; for (unsigned i = 0; i < s->getSize(); i++) at.add(nm(s->getNode(i)) == nm((*s)[i]) ? nm(s->getNode(i)) : std::string("?"));
    o.set("at", at);
    bool low = false, high = false; try { s->getNode(-1); } catch (VirtualRobotException&) { low = true; } try { s->getNode(s->getSize()); } catch (VirtualRobotException&) { high = true; }
    o.set("oob", low && high);
    o.set("chain", s->isKinematicChain());
    o.set("rob", s->getRobot() == r);
    return o;
}
OP("nsnew")
{
    std::string id = a.s(), name = a.s(); RobotPtr r = R.at(id); int how = a.n(); auto names = a.strs(); std::string root = a.s(), tcp = a.s(); bool reg = a.b();
    wantFull = true;
    if (root == "-") root = ""; if (tcp == "-") tcp = "";
    RobotNodeSetPtr s;
    if (how == 0) s = RobotNodeSet::createRobotNodeSet(r, name, names, root, tcp, reg);
    else
    {
        std::vector<RobotNodePtr> ns; for (auto& n : names) { RobotNodePtr x = r->getRobotNode(n); if (!x) throw std::runtime_error("no node"); ns.push_back(x); }
        s = RobotNodeSet::createRobotNodeSet(r, name, ns, root.empty() ? RobotNodePtr() : r->getRobotNode(root), tcp.empty() ? RobotNodePtr() : r->getRobotNode(tcp), reg);
    }
    if (!s) return J(false);
    if (!reg) S[id + "/" + name] = s;
    return setInfo(s, r);
}
OP("nsinfo") { std::string id = a.s(); RobotPtr r = R.at(id); return setInfo(rns(id, r, a.s()), r); }
OP("nsreg") { std::string id = a.s(), k = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, k); r->registerRobotNodeSet(s); S.erase(id + "/" + k); wantFull = true; return J(true); }
OP("nsdel") { std::string id = a.s(), k = a.s(); RobotPtr r = R.at(id); r->deregisterRobotNodeSet(rns(id, r, k)); wantFull = true; return J(true); }
OP("nsroot") { std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s()); s->setKinematicRoot(node(r, a)); wantFull = true; return setInfo(s, r); }
OP("nsget")   // values by every reader
{
    std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s());
    Obj o; auto v = s->getJointValues(); o.set("v", unconv(s, v));
    bool same = true;
    auto e = s->getJointValuesEigen(); if ((size_t)e.size() != v.size()) same = false; else for (size_t i = 0; i < v.size(); i++) if (e[i] != v[i]) same = false;
    std::vector<float> f(7, 1.f); s->getJointValues(f); if (f != v) same = false;
    Eigen::VectorXf e2; s->getJointValues(e2); if ((size_t)e2.size() != v.size()) same = false; else for (size_t i = 0; i < v.size(); i++) if (e2[i] != v[i]) same = false;
    auto m = s->getJointValueMap(); auto ns = s->getAllRobotNodes();
    std::set<std::string> uniq; for (auto& n : ns) uniq.insert(n->getName());
    if (m.size() != uniq.size()) same = false;
    for (size_t i = 0; i < ns.size(); i++) if (!m.count(ns[i]->getName()) || m[ns[i]->getName()] != v[i]) same = false;
    RobotConfigPtr c(new RobotConfig(r, "x")); s->getJointValues(c);
    if (c->getNodes().size() != uniq.size()) same = false;
    for (size_t i = 0; i < ns.size(); i++) if (!c->hasConfig(ns[i]->getName()) || c->getConfig(ns[i]->getName()) != v[i]) same = false;
    o.set("same", same);
    return o;
}
OP("nslim")   // limit queries of a set: vector and Eigen overloads
{
    std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s()); auto v = conv(s, a.nums());
    Obj o; auto e = eig(v);
    o.set("in", s->checkJointLimits(v)).set("in2", s->checkJointLimits(e));
    auto v2 = v; s->respectJointLimits(v2); s->respectJointLimits(e);
    std::vector<float> v3; for (int i = 0; i < e.size(); i++) v3.push_back(e[i]);
    o.set("resp", unconv(s, v2)).set("resp2", unconv(s, v3));
    return o;
}
OP("nsmut")   // a robot node set cannot be changed
{
    std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s()); RobotNodePtr n = node(r, a);
    std::vector<RobotNodePtr> v(1, n); 
    bool b = false;
    try { b |= s->addSceneObject(n); } catch (VirtualRobotException&) {}
    try { b |= s->addSceneObjects(v); } catch (VirtualRobotException&) {}
    try { b |= s->addSceneObjects(s); } catch (VirtualRobotException&) {}
    try { b |= s->removeSceneObject(n); } catch (VirtualRobotException&) {}
    return J(b);
}
OP("nssuff")
{
    std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s()); std::vector<RobotNodePtr> ns; for (auto& k : a.strs()) ns.push_back(r->getRobotNode(k));
    return J(s->nodesSufficient(ns));
}
OP("nsclone") { std::string id = a.s(); RobotPtr r = R.at(id); auto s = rns(id, r, a.s()); RobotPtr t = rob(a); wantFull = true; auto c = s->clone(t); return c ? setInfo(c, t) : J(false); }
OP("nslist")   // lookups of the robot
{
    RobotPtr r = rob(a); auto names = a.strs();
    Arr l; auto all = r->getRobotNodeSetNames(); std::sort(all.begin(), all.end()); for (auto& n : all) l.add(n);
    Arr f; for (auto& n : names) { RobotNodeSetPtr s = r->getRobotNodeSet(n); bool h = r->hasRobotNodeSet(n); if (h != (bool)s || (s && (s->getName() != n || !r->hasRobotNodeSet(s)))) f.add("?"); else if (s) f.add(n); }
    return Obj().set("all", l).set("found", f);
}
OP("tree")    // structural queries of the robot
{
    RobotPtr r = rob(a); Obj o;
    for (auto& n : r->getRobotNodes())
    {
        std::vector<std::string> up, down;
        for (auto& p : n->getAllParents()) up.push_back(p->getName());
        std::vector<RobotNodePtr> c; n->collectAllRobotNodes(c); for (auto& x : c) down.push_back(x->getName());
        std::sort(up.begin(), up.end()); std::sort(down.begin(), down.end());
        Arr u, d; for (auto& s : up) u.add(s); for (auto& s : down) d.add(s);
        Arr hc, hr; std::vector<std::string> names; for (auto& m : r->getRobotNodes()) names.push_back(m->getName()); std::sort(names.begin(), names.end());
        for (auto& m : names) { if (n->hasChild(m)) hc.add(m); if (n->hasChild(SceneObjectPtr(r->getRobotNode(m)), true)) hr.add(m); }
        o.set(n->getName(), Obj().set("up", u).set("down", d).set("kids", hc).set("desc", hr));
    }
    return o;
}

// configurations
OP("cnew")
{
    std::string id = a.s(); RobotPtr r = rob(a); int how = a.n(); auto m = smap(a); wantCfg = true;
    C.erase(id);
    std::map<RobotNodePtr, float> pm; std::vector<RobotConfig::Configuration> cs; std::vector<std::string> ns; std::vector<RobotNodePtr> np; std::vector<float> vs;
    for (auto& kv : m)
    {
        RobotNodePtr n = r->getRobotNode(kv.first); float v = n ? fromSpec(n, kv.second) : (float)kv.second;
        if (n) { pm[n] = v; np.push_back(n); }
        cs.push_back(RobotConfig::Configuration{kv.first, v}); ns.push_back(kv.first); vs.push_back(v);
    }
    if (how == 0) C[id].reset(new RobotConfig(r, id, pm)); else if (how == 1) C[id].reset(new RobotConfig(r, id, cs));
    else if (how == 2) C[id].reset(new RobotConfig(r, id, ns, vs));
    else if (how == 3) { if (np.size() != vs.size()) np.push_back(RobotNodePtr()); C[id].reset(new RobotConfig(r, id, np, vs)); }
    else if (how == 4) { C[id] = r->getConfig(); }
    else { vs.push_back(1); C[id].reset(new RobotConfig(r, id, ns, vs)); }
    if (!C[id]) C.erase(id);
    return J(true);
}
OP("cnewl")   // from lists that may name a joint twice
{
    std::string id = a.s(); RobotPtr r = rob(a); int how = a.n(); auto ns = a.strs(); auto vals = a.nums(); wantCfg = true;
    C.erase(id);
    std::vector<RobotConfig::Configuration> cs; std::vector<RobotNodePtr> np; std::vector<float> vs;
    for (size_t i = 0; i < ns.size(); i++)
    {
        RobotNodePtr n = r->getRobotNode(ns[i]); float v = n ? fromSpec(n, vals[i]) : (float)vals[i];
        np.push_back(n); vs.push_back(v); cs.push_back(RobotConfig::Configuration{ns[i], v});
    }
    RobotConfigPtr c;
    if (how == 0) c.reset(new RobotConfig(r, id, cs));
    else if (how == 1) c.reset(new RobotConfig(r, id, ns, vs));
    else c.reset(new RobotConfig(r, id, np, vs));
    C[id] = c;
    return J(true);
}
OP("cset")
{
    RobotConfigPtr c = C.at(a.s()); int how = a.n(); std::string n = a.s(); double v = a.d(); wantCfg = true;
    RobotNodePtr x = c->getRobot()->getRobotNode(n); float f = x ? fromSpec(x, v) : (float)v;
    if (how == 0) return J(c->setConfig(n, f));
    if (how == 1) return J(c->setConfig(RobotConfig::Configuration{n, f}));
    return J(c->setConfig(x, f));
}
OP("csetof")  // node of another robot
{
    RobotConfigPtr c = C.at(a.s()); RobotPtr r = rob(a); RobotNodePtr n = node(r, a); wantCfg = true;
    return J(c->setConfig(n, 0.25f));
}
OP("cget") { RobotConfigPtr c = C.at(a.s()); std::string n = a.s(); RobotNodePtr x = c->getRobot()->getRobotNode(n); float v = c->getConfig(n); return Obj().set("has", c->hasConfig(n)).set("v", x ? jq(x, v) : jI(v)); }
OP("cclone") { RobotConfigPtr c = C.at(a.s()); std::string id = a.s(), r = a.s(); wantCfg = true; C[id] = c->clone(r == "-" ? RobotPtr() : R.at(r)); return J(true); }
OP("ctcp") { RobotConfigPtr c = C.at(a.s()); std::string n = a.s(); bool byname = a.b(); wantCfg = true; if (byname) return J(c->setTCP(n)); return J(c->setTCP(c->getRobot()->getRobotNode(n))); }
OP("capply")
{
    RobotConfigPtr c = C.at(a.s()); int how = a.n(); std::string r = a.s(); wantCfg = true;
    if (how == 0) return J(c->setJointValues());
    if (how == 1) { R.at(r)->setJointValues(c); return J(true); }
    if (how == 2) return J(R.at(r)->setConfig(c));
    return J(c->setJointValues(R.at(r)));
}
OP("cxml")    // save the configuration (how 1: behind all others) and load it with a new robot
{
    RobotConfigPtr c = C.at(a.s()); int how = a.n(); std::string f = a.s();
    std::string x = "<Scene name='s'><Robot name='X'><File>" + f + "</File>";
    std::set<std::string> names{c->getName()};
    if (how == 1) for (auto& o : C) if (names.insert(o.second->getName()).second) x += o.second->toXML(1);
    x += c->toXML(1) + "</Robot></Scene>";
    ScenePtr s = SceneIO::createSceneFromString(x, "");
    RobotPtr r = s->getRobot("X");
    RobotConfigPtr d = s->getRobotConfig(r, c->getName());
    if (!d) throw std::runtime_error("not loaded");
    return Obj().set("m", configMap(d, r)).set("tcp", nm(d->getTCP())).set("own", d->getRobot() == r && s->getRobotConfigs(r).size() == names.size());
}
OP("cdump") { wantCfg = true; return J(true); }

// restructuring (C20)
OP("inv") { RobotPtr r = rob(a); std::string id = a.s(), root = a.s(); bool s = a.b(), e = a.b(); wantFull = true; RobotPtr x = RobotFactory::cloneInversed(r, root, s, e); if (x) R[id] = x; return J((bool)x); }
OP("subset") { std::string src = a.s(); RobotPtr r = R.at(src); std::string id = a.s(); auto s = rns(src, r, a.s()); wantFull = true; RobotPtr x = RobotFactory::cloneSubSet(r, s, id); if (x) R[id] = x; return J((bool)x); }
OP("unite") { RobotPtr r = rob(a); std::string id = a.s(); auto l = a.strs(); wantFull = true; RobotPtr x = RobotFactory::cloneUniteSubsets(r, id, l); if (x) R[id] = x; return J((bool)x); }
OP("chain2") { RobotPtr r = rob(a); std::string id = a.s(), n1 = a.s(), n2 = a.s(); wantFull = true; RobotPtr x = RobotFactory::cloneChangeStructure(r, n1, n2); if (x) R[id] = x; return J((bool)x); }
OP("attach")
{
    RobotPtr r = rob(a); RobotNodePtr n = node(r, a); std::string name = a.s(); Eigen::Matrix4f p = a.pose(); wantFull = true;
    SceneObjectPtr o = Obstacle::createBox(20, 20, 20); o->setName(name);
    return J(RobotFactory::attach(r, o, n, p));
}
OP("detach") { RobotPtr r = rob(a); RobotNodePtr n = node(r, a); wantFull = true; return J(RobotFactory::detach(r, n)); }
// all model vertices in the global frame, sorted
static std::vector<Eigen::Vector3f> verts(const RobotPtr& r, bool col)
{
    std::vector<Eigen::Vector3f> v;
    for (auto& n : r->getRobotNodes())
    {
        VisualizationNodePtr x = col ? (n->getCollisionModel() ? n->getCollisionModel()->getVisualization() : VisualizationNodePtr()) : n->getVisualization();
        TriMeshModelPtr t = col ? (n->getCollisionModel() ? n->getCollisionModel()->getTriMeshModel() : TriMeshModelPtr()) : (x ? x->getTriMeshModel() : TriMeshModelPtr());
        if (!t) continue;
        Eigen::Matrix4f g = n->getGlobalPose();
        for (auto& p : t->vertices) v.push_back((g * p.homogeneous()).head<3>());
    }
    return v;
}
static int cover(const std::vector<Eigen::Vector3f>& a, const std::vector<Eigen::Vector3f>& b)
{
    int miss = 0;
    for (auto& p : a) { bool f = false; for (auto& q : b) if ((p - q).norm() < 0.5f) { f = true; break; } if (!f) miss++; }
    return miss;
}
OP("geo")    // same values, second robot placed at the first: do the bodies coincide?
{
    RobotPtr r = rob(a), t = rob(a); std::string ref = a.s(); auto m = smap(a); bool whole = a.b(); (void)whole; wantFull = false;
    std::map<std::string, float> s1, s2;
    for (auto& kv : m)
    {
        if (r->hasRobotNode(kv.first)) s1[kv.first] = fromSpec(r->getRobotNode(kv.first), kv.second);
        if (t->hasRobotNode(kv.first)) s2[kv.first] = fromSpec(t->getRobotNode(kv.first), kv.second);
    }
    r->setJointValues(s1); t->setJointValues(s2);
    if (ref != "-") t->setGlobalPoseForRobotNode(t->getRobotNode(ref), r->getRobotNode(ref)->getGlobalPose());
    auto cmp = [&](bool col) { auto x = verts(r, col), y = verts(t, col); return cover(x, y) + cover(y, x); };
    int bs = 0;
    std::map<std::string, Eigen::Matrix4f> s;
    for (auto& n : t->getRobotNodes()) for (auto& x : n->getSensors()) s[x->getName()] = x->getGlobalPose();
    for (auto& n : r->getRobotNodes()) for (auto& x : n->getSensors()) if (!s.count(x->getName()) || residual(s[x->getName()], x->getGlobalPose(), 0.5)) bs++;
    int bm = std::fabs(r->getMass() - t->getMass()) > 1e-3, bc = r->getMass() > 0 && (r->getCoMGlobal() - t->getCoMGlobal()).norm() > 0.5;
    return Obj().set("vis", cmp(false)).set("col", cmp(true)).set("mass", bm).set("com", bc).set("sens", bs);
}
OP("com")     // mass and centre of mass in micrometres of the mass-weighted mean's denominator
{
    RobotPtr r = rob(a); double M = 0; Eigen::Vector3d s(0, 0, 0);
    for (auto& n : r->getRobotNodes()) { M += n->getMass(); s += n->getMass() * n->getCoMGlobal().cast<double>(); }
    int bad = std::fabs(M - r->getMass()) > 1e-3 ? 1 : 0;
    if (M > 0 && (r->getCoMGlobal().cast<double>() - s / M).norm() > 0.1) bad += 2;
    return Obj().set("m", jI(r->getMass() * 1000.0)).set("bad", bad);
}

static struct Init { Init() {
    projector() = [](const std::string& op, Obj& o) {
        if (wantDyn)
        {
            Obj s; for (auto& r : R) s.set(r.first, robotDyn(r.second));
            o.set("st", R.empty() ? J::raw("{\"_\":0}") : (J)s);
        }
        if (!L.empty())
        {
            Obj s;
            for (auto& l : L)
            {
                Eigen::Matrix4f p = l.second.c->getPose();
                RobotNodePtr f = l.second.c->getFrame();
                int dev = residual(p, l.second.p.cast<float>(), 0.2) + ((l.second.c->getPosition() - p.block<3, 1>(0, 3)).norm() > 0 ? 1 : 0) + (f != l.second.f ? 1 : 0);
                s.set(l.first, Obj().set("f", f ? f->getName() : std::string()).set("p", lattice(p)).set("dev", dev));
            }
            o.set("lk", s);
        }
        if (wantFull)
        {
            Obj s; for (auto& r : R) s.set(r.first, robotStatic(r.second));
            o.set("full", R.empty() ? J::raw("{\"_\":0}") : (J)s);
        }
        if (wantCfg)
        {
            Obj s; for (auto& c : C)
            {
                int nn = c.second->getNodes().size();
                for (auto& n : c.second->getNodes()) if (n->getRobot() != c.second->getRobot()) nn = -1;
                s.set(c.first, Obj().set("m", configMap(c.second, c.second->getRobot())).set("tcp", nm(c.second->getTCP())).set("rob", c.second->getRobot()->getName()).set("hastcp", c.second->hasTCP() && c.second->getRobot()->getRobotNode(c.second->getTCP()->getName()) == c.second->getTCP()).set("name", c.second->getName()).set("nn", nn));
            }
            o.set("cfg", C.empty() ? J::raw("{\"_\":0}") : (J)s);
        }
        wantFull = wantCfg = false;
    };
} } init_;
int main(int c, char** v) { return drv::main(c, v); }
