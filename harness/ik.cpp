// Driver for inverse kinematics (C22): Jacobians, errors, centres of mass, pseudo inverses, solvers and constraints
#include "drv.h"
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/GazeIK.h>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/IK/HierarchicalIKSolver.h>
#include <VirtualRobot/IK/JointLimitAvoidanceJacobi.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <VirtualRobot/IK/ConstrainedHierarchicalIK.h>
#include <VirtualRobot/IK/ConstrainedStackedIK.h>
#include <VirtualRobot/IK/ConstrainedOptimizationIK.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/IK/constraints/CollisionCheckConstraint.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
using namespace VirtualRobot;
using namespace drv;

static std::map<std::string, RobotPtr> R;
static std::map<std::string, std::map<std::string, SceneObjectPtr>> A;   // sensors attached to robots
static std::map<std::string, ObstaclePtr> O;
static std::map<std::string, ManipulationObjectPtr> MO;
static std::map<std::string, DifferentialIKPtr> X;
static std::map<std::string, boost::shared_ptr<CoMIK>> Y;
static std::map<std::string, GenericIKSolverPtr> G;
static std::map<std::string, ObstaclePtr> GO;                            // what a solver has to keep away from
static std::map<std::string, ReachabilityPtr> GR;
static std::map<std::string, HierarchicalIKSolverPtr> H;
static std::map<std::string, ConstraintPtr> CN;
static std::map<std::string, boost::shared_ptr<ConstrainedIK>> K;

template <class T> static T& get(std::map<std::string, T>& m, const std::string& k)
{ if (!m.count(k)) throw std::logic_error("script: nothing called " + k); return m[k]; }
static RobotPtr rob(Args& a) { return get(R, a.s()); }
static SceneObjectPtr so(const RobotPtr& r, const std::string& n)
{
    if (n == "-") return SceneObjectPtr();
    if (r->hasRobotNode(n)) return r->getRobotNode(n);
    auto& m = A[r->getName()];
    if (m.count(n)) return m[n];
    throw std::logic_error("script: no node " + n);
}
static RobotNodePtr nd(const RobotPtr& r, const std::string& n) { return n == "-" ? RobotNodePtr() : r->getRobotNode(n); }
static RobotNodeSetPtr set(const RobotPtr& r, const std::string& n)
{ RobotNodeSetPtr s = r->getRobotNodeSet(n); if (!s) throw std::logic_error("script: no set " + n); return s; }
static double milli(const RobotNodePtr& n, double v) { return n->isRotationalJoint() ? deg(v) * 1000 : v * 1000; }
static float val(const RobotNodePtr& n, double m) { return n->isRotationalJoint() ? rad(m / 1000) : m / 1000; }
static J rnd(double v) { if (!(v == v) || std::fabs(v) > 2e9) return J(BAD); return J((int)std::floor(v + .5)); }
// a pose off the lattice: rotation in 1/20000, position in 1/100 mm
static J fine(const Eigen::Matrix4f& m)
{
    Arr a;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) a.add(rnd(20000.0 * m(r, c)));
    for (int r = 0; r < 3; r++) a.add(rnd(100.0 * m(r, 3)));
    return a;
}
template <class M> static J mat(const M& m, double sc, double tol = .05)
{
    Arr a;
    for (int r = 0; r < m.rows(); r++) { Arr b; for (int c = 0; c < m.cols(); c++) b.add(tol > 0 ? jI(sc * m(r, c), tol) : rnd(sc * m(r, c))); a.add(b); }
    return a;
}
template <class V> static J vec(const V& v, double sc) { Arr a; for (int k = 0; k < v.rows(); k++) a.add(rnd(sc * v(k))); return a; }
static IKSolver::CartesianSelection sel(int k) { return (IKSolver::CartesianSelection)k; }
static JacobiProvider::InverseJacobiMethod meth(int k) { return (JacobiProvider::InverseJacobiMethod)k; }
// what a solver left behind, for a node and the centre of mass of a set of bodies
static J after(const RobotPtr& r, bool ok, const std::vector<SceneObjectPtr>& tcps, const RobotNodeSetPtr& bodies = RobotNodeSetPtr(), bool col = false)
{
    std::map<std::string, Eigen::Matrix4f> before;
    for (auto& n : r->getRobotNodes()) before[n->getName()] = n->getGlobalPose();
    r->applyJointValues();
    int res = 0;
    for (auto& n : r->getRobotNodes()) res = std::max(res, residual(n->getGlobalPose(), before[n->getName()]));
    Arr t;
    for (auto& x : tcps) t.add(fine(x->getGlobalPose()));
    Eigen::Vector3f c = Eigen::Vector3f::Zero();
    if (bodies) c = bodies->getCoM();
    return Obj().set("ok", J(ok)).set("t", t).set("stale", J(res)).set("com", vec(c, 100)).set("col", J(col));
}

OP("reset") { R.clear(); A.clear(); O.clear(); MO.clear(); X.clear(); Y.clear(); G.clear(); GO.clear(); GR.clear(); H.clear(); CN.clear(); K.clear(); srand(7); return J(true); }
OP("seed") { int k = a.n(); srand(k); std::srand(k); return J(true); }
OP("robot")
{
    std::string id = a.s();
    RobotPtr r = RobotIO::loadRobot(a.s(), RobotIO::eFull);
    if (!r) throw std::logic_error("script: robot not loaded");
    r->setName(id);
    R[id] = r;
    return J(true);
}
OP("att")
{
    RobotPtr r = rob(a); RobotNodePtr n = nd(r, a.s()); std::string k = a.s();
    SensorPtr o(new PositionSensor(n, k, VisualizationNodePtr(), a.pose()));
    if (!o->initialize(n, std::vector<SceneObjectPtr>())) return J(false);
    A[r->getName()][k] = o;
    return J(true);
}
OP("obs")
{
    std::string k = a.s(); Eigen::Matrix4f p = a.pose(); auto h = a.nums();
    ObstaclePtr o = Obstacle::createBox(2 * h[0], 2 * h[1], 2 * h[2]);
    o->setName(k); o->setGlobalPose(p); O[k] = o;
    return J(true);
}
OP("rpose") { RobotPtr r = rob(a); r->setGlobalPose(a.pose()); return J(true); }
OP("q")
{
    RobotPtr r = rob(a); auto ns = a.strs(); auto vs = a.nums(); std::map<std::string, float> m;
    for (size_t k = 0; k < ns.size(); k++) m[ns[k]] = val(r->getRobotNode(ns[k]), 1000 * vs[k]);
    r->setJointValues(m);
    return J(true);
}
OP("com") { RobotPtr r = rob(a); std::string s = a.s(); return vec(s == "-" ? r->getCoMGlobal() : set(r, s)->getCoM(), 1000); }
// ---------------------------------------------------------------- differential IK
OP("ik")
{
    std::string x = a.s(); RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); RobotNodePtr c = nd(r, a.s()); int m = a.n(); bool mm = a.b(); int ms = a.n();
    X[x].reset(new DifferentialIK(s, c, meth(m)));
    X[x]->convertModelScalingtoM(mm);
    if (ms > 0) X[x]->setMaxPositionStep(ms);
    return J(true);
}
static RobotPtr owner(const DifferentialIKPtr& x) { return x->getRobotNodeSet()->getRobot(); }
OP("goal")
{
    auto x = get(X, a.s()); SceneObjectPtr t = so(owner(x), a.s()); int s = a.n(); float tp = a.d() / 2; float tr = rad(a.d()); Eigen::Matrix4f p = a.pose(); bool vec3 = a.b();
    if (vec3) x->setGoal(Eigen::Vector3f(p.block<3, 1>(0, 3)), t, sel(s), tp, tr); else x->setGoal(p, t, sel(s), tp, tr);
    return J(true);
}
OP("jac")
{
    auto x = get(X, a.s()); SceneObjectPtr t = so(owner(x), a.s()); int s = a.n(); double sc = a.d();
    Eigen::MatrixXf j = s == 15 && !t ? x->getJacobianMatrix(SceneObjectPtr()) : t ? x->getJacobianMatrix(t, sel(s)) : x->getJacobianMatrix(sel(s));
    if (s == 15)    // the variant in double precision: reported instead if it differs
    {
        Eigen::MatrixXf d = x->getJacobianMatrixD(t).cast<float>();
        if (d.rows() != j.rows() || d.cols() != j.cols() || (d - j).cwiseAbs().maxCoeff() > 1e-6) j = d;
    }
    return mat(j, sc);
}
OP("jacx")
{
    auto x = get(X, a.s()); double sc = a.d();
    Eigen::MatrixXf j = x->getJacobianMatrix(), d = x->getJacobianMatrixD().cast<float>();
    if (d.rows() != j.rows() || d.cols() != j.cols() || (j.size() && (d - j).cwiseAbs().maxCoeff() > 1e-6)) j = d;
    return mat(j, sc);
}
OP("errx") { auto x = get(X, a.s()); Eigen::VectorXf e = x->getError(a.d() / 100); return vec(e, 1000); }
OP("tolx")
{
    auto x = get(X, a.s()); Arr p, o;
    for (auto& k : a.strs())
    {
        SceneObjectPtr t = so(owner(x), k);
        double d = t ? x->getErrorPosition(t) : x->getErrorPosition();
        p.add(jI(d * d, .3)); o.add(rnd(1000 * deg(t ? x->getErrorRotation(t) : x->getErrorRotation())));
    }
    return Obj().set("p", p).set("o", o).set("t", J(x->checkTolerances()));
}
OP("delta")
{
    auto x = get(X, a.s()); Eigen::Matrix4f c = a.pose(), g = a.pose(); int s = a.n();
    Eigen::VectorXf d = x->getDelta(c, g, sel(s));
    d.tail(3) *= 180 / M_PI;
    return vec(d, 1000);
}
OP("solve")
{
    auto x = get(X, a.s()); double st = a.d() / 100, mc = a.d() / 1e6; int n = a.n(); bool ci = a.b();
    std::vector<SceneObjectPtr> ts; for (auto& k : a.strs()) ts.push_back(k == "-" ? SceneObjectPtr(x->getRobotNodeSet()->getTCP()) : so(owner(x), k));
    x->checkImprovements(ci);
    bool ok = x->solveIK(st, mc, n);
    return after(owner(x), ok, ts);
}
// ---------------------------------------------------------------- centre of mass
OP("comik")
{
    std::string y = a.s(); RobotPtr r = rob(a); RobotNodeSetPtr j = set(r, a.s()), b = set(r, a.s()); RobotNodePtr c = nd(r, a.s()); int d = a.n();
    Y[y].reset(new CoMIK(j, b, c, d));
    return J(true);
}
OP("cgoal") { auto y = get(Y, a.s()); auto v = a.nums(); Eigen::VectorXf g(v.size()); for (size_t k = 0; k < v.size(); k++) g(k) = v[k]; y->setGoal(g, a.d() / 2); return J(true); }
OP("cjac") { auto y = get(Y, a.s()); return mat(y->getJacobianMatrix(), 1000, -1); }
OP("cerr") { auto y = get(Y, a.s()); return Obj().set("e", vec(y->getError(1.0f), 1000)).set("t", J(y->checkTolerances())); }
OP("csolve")
{
    auto y = get(Y, a.s()); RobotPtr r = rob(a); RobotNodeSetPtr b = set(r, a.s()); double st = a.d() / 100; int n = a.n();
    bool ok = y->solveIK(st, 0, n);
    return after(r, ok, {}, b);
}
// ---------------------------------------------------------------- pseudo inverses
OP("pinv")
{
    RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); int m = a.n(); bool dbl = a.b(); int rows = a.n(); auto v = a.nums(); auto reg = a.nums(); auto w = a.nums(); double lam = a.d();
    JointLimitAvoidanceJacobi p(s, meth(m));
    int cols = v.size() / rows;
    Eigen::MatrixXf M(rows, cols); for (int i = 0; i < rows; i++) for (int k = 0; k < cols; k++) M(i, k) = v[i * cols + k];
    Eigen::VectorXf g(reg.size()); for (size_t k = 0; k < reg.size(); k++) g(k) = reg[k];
    if (!w.empty()) { Eigen::VectorXf jw(w.size()); for (size_t k = 0; k < w.size(); k++) jw(k) = 1 / (w[k] * w[k]); p.setJointWeights(jw); }
    if (dbl) return mat(p.computePseudoInverseJacobianMatrixD(M.cast<double>(), lam, g.cast<double>()), 1e5, -1);
    return mat(p.computePseudoInverseJacobianMatrix(M, (float)lam, g), 1e5, -1);
}
// ---------------------------------------------------------------- generic solver
static bool touches(const RobotNodeSetPtr& s, const ObstaclePtr& o)
{
    bool c = false;
    for (auto& n : s->getAllRobotNodes())
        if (n->getCollisionModel() && n->getCollisionChecker()->checkCollision(n->getCollisionModel(), o->getCollisionModel())) c = true;
    return c;
}
OP("gik") { std::string g = a.s(); RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); int m = a.n(); G[g].reset(new GenericIKSolver(s, meth(m))); GO.erase(g); GR.erase(g); return J(true); }
OP("gset") { auto g = get(G, a.s()); float tp = a.d() / 2, tr = rad(a.d()); double st = a.d() / 100; int n = a.n(); g->setMaximumError(tp, tr); g->setupJacobian(st, n); return J(true); }
OP("gcol")
{
    std::string k = a.s(); auto g = get(G, k); int how = a.n(); std::string on = a.s();
    if (on == "-") { g->collisionDetection(ObstaclePtr()); GO.erase(k); return J(true); }
    ObstaclePtr o = get(O, on); GO[k] = o;
    if (how == 0) g->collisionDetection(o);
    else if (how == 1) g->collisionDetection(SceneObjectPtr(o));
    else if (how == 2) { SceneObjectSetPtr s(new SceneObjectSet("s", o->getCollisionChecker())); s->addSceneObject(o); g->collisionDetection(s); }
    else { CDManagerPtr c(new CDManager(o->getCollisionChecker())); SceneObjectSetPtr s(new SceneObjectSet("s", o->getCollisionChecker())); s->addSceneObject(o); c->addCollisionModelPair(s, g->getRobotNodeSet()); g->collisionDetection(c); }
    return J(true);
}
OP("greach")
{
    std::string k = a.s(); auto g = get(G, k); int poses = a.n();
    RobotNodeSetPtr s = g->getRobotNodeSet();
    ReachabilityPtr w(new Reachability(s->getRobot()));
    float lo[6] = { -500, -500, -500, -3.2f, -3.2f, -3.2f }, hi[6] = { 500, 500, 500, 3.2f, 3.2f, 3.2f };
    w->initialize(s, 100, 1.0f, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), s->getRobot()->getRootNode(), g->getTcp());
    auto q = s->getJointValues();
    w->addRandomTCPPoses(poses, false);
    s->setJointValues(q);
    g->setReachabilityCheck(w); GR[k] = w;
    return J(true);
}
OP("gobj")
{
    RobotPtr r = rob(a); std::string e = a.s(), k = a.s(); Eigen::Matrix4f p = a.pose();
    ManipulationObjectPtr m(new ManipulationObject(k)); m->setGlobalPose(p);
    int n = a.n(); EndEffectorPtr eef = r->getEndEffector(e);
    if (n >= 0)
    {
        GraspSetPtr gs(new GraspSet("gs", r->getType(), e));
        for (int i = 0; i < n; i++) { Eigen::Matrix4f t = a.pose(); GraspPtr g(new Grasp("g" + std::to_string(i), r->getType(), e, t)); gs->addGrasp(g); }
        m->addGraspSet(gs);
    }
    MO[k] = m;
    return J(true);
}
OP("gsolve")
{
    std::string k = a.s(); auto g = get(G, k); int kind = a.n(); Eigen::Matrix4f p = a.pose(); int s = a.n(), loops = a.n(); std::string on = a.s(); int gi = a.n();
    RobotNodeSetPtr rs = g->getRobotNodeSet(); RobotPtr r = rs->getRobot();
    bool ok = false; std::string gn = "-"; int nres = 0; Eigen::Matrix4f at = Eigen::Matrix4f::Identity();
    bool reach = true;
    if (kind == 3) p = get(MO, on)->getGraspSet("gs")->getGrasp("g" + std::to_string(gi))->getTcpPoseGlobal(get(MO, on)->getGlobalPose());
    if (GR.count(k) && kind != 4) { Eigen::Matrix4f q = p; if (kind == 1) q.block<3, 3>(0, 0).setIdentity(); reach = GR[k]->isReachable(q); }
    if (kind == 0) ok = g->solve(p, sel(s), loops);
    else if (kind == 1) ok = g->AdvancedIKSolver::solve(Eigen::Vector3f(p.block<3, 1>(0, 3)));
    else if (kind == 2)
    {
        auto v = g->solveNoRNSUpdate(p, sel(s)); ok = !v.empty(); nres = v.size();
        if (ok)
        {
            auto q = rs->getJointValues();
            bool lim = true;
            for (size_t i = 0; i < v.size(); i++) if (v[i] < rs->getNode(i)->getJointLimitLo() - 1e-4 || v[i] > rs->getNode(i)->getJointLimitHi() + 1e-4) lim = false;
            if (!lim) nres = -1;
            rs->setJointValues(v); at = g->getTcp()->getGlobalPose(); bool c = GO.count(k) && touches(rs, GO[k]); rs->setJointValues(q);
            J j = Obj().set("a", after(r, ok, { g->getTcp() }, RobotNodeSetPtr(), c)).set("g", J(gn)).set("n", J(nres)).set("at", fine(at)).set("reach", J(reach));
            return j;
        }
    }
    else if (kind == 3) ok = g->solve(get(MO, on), get(MO, on)->getGraspSet("gs")->getGrasp("g" + std::to_string(gi)), sel(s), loops);
    else { GraspPtr x = g->solve(get(MO, on), sel(s), loops); ok = (bool)x; if (x) gn = x->getName(); }
    at = g->getTcp()->getGlobalPose();
    bool c = GO.count(k) && touches(rs, GO[k]);
    return Obj().set("a", after(r, ok, { g->getTcp() }, RobotNodeSetPtr(), c)).set("g", J(gn)).set("n", J(nres)).set("at", fine(at)).set("reach", J(reach));
}
// ---------------------------------------------------------------- hierarchies
OP("hik") { std::string h = a.s(); RobotPtr r = rob(a); H[h].reset(new HierarchicalIKSolver(set(r, a.s()))); return J(true); }
OP("hadd") { auto h = get(H, a.s()); int k = a.n(); std::string x = a.s(); if (k == 0) h->addIK(get(X, x)); else if (k == 1) h->addIK(get(Y, x)); else h->addIK(JacobiProviderPtr(new JointLimitAvoidanceJacobi(get(X, x)->getRobotNodeSet()))); return J(true); }
OP("hsolve")
{
    auto h = get(H, a.s()); RobotPtr r = rob(a); auto ts = a.strs(); std::string b = a.s(); double st = a.d() / 100; int n = a.n();
    std::vector<SceneObjectPtr> t; for (auto& k : ts) t.push_back(so(r, k));
    bool ok = h->solveIK(st, 0, n);
    return after(r, ok, t, b == "-" ? RobotNodeSetPtr() : set(r, b));
}
// step of the whole hierarchy and of its first task alone
OP("hstep")
{
    RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); std::vector<JacobiProviderPtr> ps; for (auto& k : a.strs()) ps.push_back(get(X, k));
    HierarchicalIK h(s);
    Eigen::VectorXf d = h.computeStep(ps, 1.0f), d1 = h.computeStep({ ps[0] }, 1.0f);
    return Obj().set("d", vec(d, 1e4)).set("f", vec(d1, 1e4));
}
OP("gaze")
{
    RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); RobotNodePrismaticPtr v = boost::dynamic_pointer_cast<RobotNodePrismatic>(nd(r, a.s())); Eigen::Vector3f g = a.v3(); int e2 = a.n(); bool jla = a.b();
    GazeIK z(s, v); z.setup(e2 / 2.0f, 6, 30); z.enableJointLimitAvoidance(jla);
    bool ok = z.solve(g);
    return after(r, ok, { s->getTCP() });
}
// ---------------------------------------------------------------- constraints
OP("con")
{
    std::string k = a.s(); RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); std::string kind = a.s(); std::string t = a.s(); Eigen::Matrix4f p = a.pose(); int se = a.n(); float tp = a.d() / 2, tr = rad(a.d()); auto v = a.nums(); Eigen::Matrix4f off = a.pose();
    ConstraintPtr c;
    if (kind == "pos") c.reset(new PositionConstraint(r, s, so(r, t), Eigen::Vector3f(p.block<3, 1>(0, 3)), sel(se), tp));
    else if (kind == "ori") c.reset(new OrientationConstraint(r, s, so(r, t), Eigen::Matrix3f(p.block<3, 3>(0, 0)), sel(se), tr, false));
    else if (kind == "pose") c.reset(new PoseConstraint(r, s, so(r, t), p, sel(se), tp, tr));
    else if (kind == "com3") c.reset(new CoMConstraint(r, s, set(r, t), Eigen::Vector3f(p.block<3, 1>(0, 3)), tp));
    else if (kind == "com2") c.reset(new CoMConstraint(r, s, set(r, t), Eigen::Vector2f(p.block<2, 1>(0, 3)), tp));
    else if (kind == "ref") { Eigen::VectorXf q(v.size()); for (size_t i = 0; i < v.size(); i++) q(i) = val(s->getNode(i), 1000 * v[i]); c.reset(new ReferenceConfigurationConstraint(r, s, q)); }
    else if (kind == "jla") c.reset(new JointLimitAvoidanceConstraint(r, s));
    else if (kind == "col") { ObstaclePtr o = get(O, t); CDManagerPtr m(new CDManager(o->getCollisionChecker())); m->addCollisionModel(o); m->addCollisionModel(s); c.reset(new CollisionCheckConstraint(s, m)); }
    else if (kind == "tsr")
    {
        Eigen::Matrix<float, 6, 2> b;
        for (int i = 0; i < 6; i++) for (int j = 0; j < 2; j++) b(i, j) = i < 3 ? v[2 * i + j] : rad(v[2 * i + j]);
        c.reset(new TSRConstraint(r, s, nd(r, t), p, off, b, tp, tr));
    }
    else if (kind == "bal")
    {
        SceneObjectSetPtr f(new SceneObjectSet("feet", r->getCollisionChecker()));
        f->addSceneObject(nd(r, a.s()));
        c.reset(new BalanceConstraint(r, s, set(r, t), f, tp, se / 10.0f));
    }
    else throw std::logic_error("script: constraint " + kind);
    CN[k] = c;
    return J(true);
}
OP("ctgt")
{
    auto c = get(CN, a.s()); Eigen::Matrix4f p = a.pose(); std::string kind = a.s();
    if (kind == "pose") boost::dynamic_pointer_cast<PoseConstraint>(c)->updateTarget(p);
    else if (kind == "com3") boost::dynamic_pointer_cast<CoMConstraint>(c)->updateTarget(Eigen::Vector3f(p.block<3, 1>(0, 3)));
    else boost::dynamic_pointer_cast<CoMConstraint>(c)->updateTarget(Eigen::Vector2f(p.block<2, 1>(0, 3)));
    return J(true);
}
OP("ctol") { return J(get(CN, a.s())->checkTolerances()); }
OP("cval") { auto c = get(CN, a.s()); int id = a.n(); double sc = a.d(); return rnd(sc * c->optimizationFunction(id)); }
OP("cgrad") { auto c = get(CN, a.s()); int id = a.n(); double sc = a.d(); return vec(c->optimizationGradient(id), sc); }
OP("cik")
{
    std::string k = a.s(); RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); int ty = a.n(), it = a.n();
    if (ty == 0) K[k].reset(new ConstrainedHierarchicalIK(r, s, 0.2f, it));
    else if (ty == 1) K[k].reset(new ConstrainedStackedIK(r, s, 0.2f, it));
    else { K[k].reset(new ConstrainedOptimizationIK(r, s, 0.2f)); K[k]->setMaxIterations(it); }
    return J(true);
}
template <typename T> static J listed(const T& k)
{
    Arr r;
    for (auto& c : k->getConstraints()) for (auto& x : CN) if (x.second == c) r.add(x.first);
    return r;
}
OP("cadd") { auto k = get(K, a.s()); auto c = get(CN, a.s()); int p = a.n(); k->addConstraint(c, p, a.b()); return listed(k); }
OP("crem") { auto k = get(K, a.s()); k->removeConstraint(get(CN, a.s())); return listed(k); }
OP("cseed") { auto k = get(K, a.s()); auto v = a.nums(); Eigen::VectorXf s(v.size()); for (size_t i = 0; i < v.size(); i++) s(i) = v[i]; k->addSeed(ConstrainedIK::eSeedOther, s); return J(true); }
OP("ksolve")
{
    auto k = get(K, a.s()); RobotPtr r = rob(a); RobotNodeSetPtr s = set(r, a.s()); auto ts = a.strs(); std::string b = a.s(), on = a.s();
    std::vector<SceneObjectPtr> t; for (auto& x : ts) t.push_back(so(r, x));
    bool ini = k->initialize();
    bool ok = ini && k->solve();
    J j = after(r, ok, t, b == "-" ? RobotNodeSetPtr() : set(r, b), on != "-" && touches(s, get(O, on)));
    bool vis = r->getUpdateVisualizationStatus(), col = r->getUpdateCollisionModelStatus();
    return Obj().set("a", j).set("ini", J(ini)).set("uv", J(vis)).set("uc", J(col));
}
// a polygon below the feet and how well a set of bodies stands on it
OP("support")
{
    RobotPtr r = rob(a); std::string b = a.s(); auto fs = a.strs(); int upd = a.n();
    SceneObjectSetPtr f(new SceneObjectSet("feet", r->getCollisionChecker()));
    for (auto& n : fs) f->addSceneObject(nd(r, n));
    SupportPolygon p(f); if (!upd) p.updateSupportPolygon(10.0f);
    double i = p.getStabilityIndex(set(r, b), upd);
    Arr v; auto ch = p.getSupportPolygon2D();
    if (ch) for (auto& x : ch->vertices) v.add(Arr().add(rnd(10 * x(0))).add(rnd(10 * x(1))));
    return Obj().set("i", rnd(1e4 * i)).set("v", v);
}

int main(int argc, char** argv)
{
    projector() = [](const std::string&, Obj & o)
    {
        Obj all;
        all.set("_", J(0));
        for (auto& kv : R)
        {
            Obj q; q.set("_", J(0));
            for (auto& n : kv.second->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) q.set(n->getName(), rnd(milli(n, n->getJointValue())));
            all.set(kv.first, Obj().set("q", q).set("p", pose(kv.second->getGlobalPose())));
        }
        o.set("st", all);
    };
    return drv::main(argc, argv);
}
