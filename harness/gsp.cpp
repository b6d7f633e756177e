// Driver for grasp planning (C23) and grasp quality (C24).
#include "robproj.h"
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Grasping/BasicGraspQualityMeasure.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <GraspPlanning/GraspStudio.h>
#include <GraspPlanning/ApproachMovementSurfaceNormal.h>
#include <GraspPlanning/ContactConeGenerator.h>
#include <GraspPlanning/ConvexHullGenerator.h>
#include <GraspPlanning/GraspPlanner/GenericGraspPlanner.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
using namespace VirtualRobot;
using namespace GraspStudio;
using namespace drv;
using namespace proj;

static RobotPtr rob;
static EndEffectorPtr hand;
static std::map<std::string, SceneObjectPtr> O;
static SceneObjectSetPtr obs;
static boost::shared_ptr<ApproachMovementSurfaceNormal> gen;
static boost::shared_ptr<GraspQualityMeasureWrenchSpace> meas;
static boost::shared_ptr<GenericGraspPlanner> planner;
static GraspSetPtr gset;

static int R_(double v, double s) { double x = v * s; if (!(x == x) || std::fabs(x) > 1e9) return BAD; return (int)std::lround(x); }
static J p100(const Eigen::Matrix4f& m)
{
    Arr a;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) a.add(R_(m(r, c), 1e4));
    for (int r = 0; r < 3; r++) a.add(R_(m(r, 3), 100));
    return a;
}
static J v_(const Eigen::Vector3f& v, double s) { return Arr().add(R_(v(0), s)).add(R_(v(1), s)).add(R_(v(2), s)); }
static SceneObjectPtr object(const std::string& k) { if (!O.count(k)) throw std::logic_error("script: no object " + k); return O[k]; }
static VisualizationNodePtr boxesVis(const std::vector<double>& l)
{
    TriMeshModelPtr m(new TriMeshModel());
    for (size_t b = 0; b + 6 <= l.size(); b += 6)      // half extents, centre
    {
        const double* h = &l[b]; const double* c = &l[b + 3];
        auto corner = [&](int x, int y, int z) { Eigen::Vector3f v((float)(c[0] + x * h[0]), (float)(c[1] + y * h[1]), (float)(c[2] + z * h[2])); return v; };
        auto quad = [&](Eigen::Vector3f p, Eigen::Vector3f q, Eigen::Vector3f s, Eigen::Vector3f t) { m->addTriangleWithFace(p, q, s); m->addTriangleWithFace(p, s, t); };
        quad(corner(1, -1, -1), corner(1, 1, -1), corner(1, 1, 1), corner(1, -1, 1));
        quad(corner(-1, -1, -1), corner(-1, -1, 1), corner(-1, 1, 1), corner(-1, 1, -1));
        quad(corner(-1, 1, -1), corner(-1, 1, 1), corner(1, 1, 1), corner(1, 1, -1));
        quad(corner(-1, -1, -1), corner(1, -1, -1), corner(1, -1, 1), corner(-1, -1, 1));
        quad(corner(-1, -1, 1), corner(1, -1, 1), corner(1, 1, 1), corner(-1, 1, 1));
        quad(corner(-1, -1, -1), corner(-1, 1, -1), corner(1, 1, -1), corner(1, -1, -1));
    }
    Eigen::Matrix4f i = Eigen::Matrix4f::Identity();
    return VisualizationFactory::first(NULL)->createTriMeshModelVisualization(m, i);
}
static SceneObjectPtr make(const std::string& id, const Eigen::Matrix4f& p, const std::vector<double>& l)
{
    CollisionModelPtr c(new CollisionModel(boxesVis(l), id));
    SceneObjectPtr o(new SceneObject(id, VisualizationNodePtr(), c));
    o->setGlobalPose(p);
    return o;
}
static bool hits(const SceneObjectSetPtr& s)
{
    if (!s || !s->getSize()) return false;
    return gen->getEEF()->getCollisionChecker()->checkCollision(gen->getEEF()->createSceneObjectSet(), s);
}
static bool touches() { return gen->getEEF()->getCollisionChecker()->checkCollision(gen->getObject(), gen->getEEF()->createSceneObjectSet()); }
// the hand still meets the object when it is moved away a little (faces that just touch may be seen either way)
static bool deep()
{
    if (!touches()) return false;
    Eigen::Matrix4f was = gen->getEEFPose(), p = was; p.block<3, 1>(0, 3) += 0.02f * gen->getApproachDirGlobal();
    RobotPtr r = gen->getEEFRobotClone(); Eigen::Matrix4f g = r->getGlobalPose();
    gen->setEEFPose(p); bool t = touches(); r->setGlobalPose(g);
    return t;
}
static J hq(const RobotPtr& r) { Obj o; for (auto& n : r->getRobotNodes()) if (n->isTranslationalJoint() || n->isRotationalJoint()) o.set(n->getName(), R_(n->getJointValue(), 100)); return o; }

OP("reset") { rob.reset(); hand.reset(); O.clear(); obs.reset(); gen.reset(); meas.reset(); planner.reset(); gset.reset(); return J(true); }
OP("newo") { std::string id = a.s(); Eigen::Matrix4f p = a.pose(); auto l = a.nums(); if (id[0] == 'b') for (size_t x = 0; x < l.size(); x++) if (x % 6 < 3) l[x] += 0.437; /* obstacles: no faces in the planes of the hand's */ SceneObjectPtr o = make(id, p, l); O[id] = o; return J(true); }
OP("move") { SceneObjectPtr o = object(a.s()); o->setGlobalPose(a.pose()); return J(true); }
OP("robot")
{
    std::string f = a.s();
    rob = RobotIO::loadRobot(f, RobotIO::eFull);
    if (!rob) throw std::runtime_error("not loaded");
    hand = rob->getEndEffector(a.s());
    if (!hand) throw std::logic_error("script: no effector");
    return J(true);
}
OP("obst") { auto l = a.strs(); obs.reset(new SceneObjectSet("obstacles", CollisionChecker::getGlobalCollisionChecker())); for (auto& x : l) obs->addSceneObject(object(x)); return J(true); }
OP("gen")
{
    std::string o = a.s(), pre = a.s(); float retreat = (float)a.n(); bool area = a.b();
    gen.reset(new ApproachMovementSurfaceNormal(object(o), hand, pre == "-" ? "" : pre, retreat, area));
    if (gen->getEEFOriginal() != hand || gen->getObject() != object(o) || gen->getEEF()->getRobot() != gen->getEEFRobotClone() || gen->getEEFRobotClone() == rob) return J("wrong parts");
    return Obj().set("gcp", gen->getGCPJoint());
}
OP("planner")
{
    float mu = (float)a.n() / 100.f; int n = a.n(); float q = (float)a.n() / 1000.f; bool fc = a.b(); std::string gs = a.s();
    meas.reset(new GraspQualityMeasureWrenchSpace(gen->getObject(), 1.0f, mu, n));
    gset.reset(new GraspSet(gs, rob->getType(), hand->getName()));
    planner.reset(new GenericGraspPlanner(gset, meas, gen, q, fc));
    planner->setVerbose(false);
    return J(true);
}
OP("rpose") { rob->setGlobalPose(a.pose()); return J(true); }
OP("q") { RobotNodePtr n = rob->getRobotNode(a.s()); rob->setJointValue(n, (float)a.n()); return J(true); }
OP("oset") { return J(gen->setEEFPose(a.pose())); }
OP("bset") { return J(gen->ApproachMovementGenerator::setEEFPose(a.pose())); }
OP("oupd") { return J(gen->updateEEFPose(a.v3())); }
OP("oupm") { return J(gen->updateEEFPose(a.pose())); }
OP("open") { gen->openHand(); return J(true); }
OP("surf")
{
    int k = a.n(); Arr l;
    while (k-- > 0) { Eigen::Vector3f p, d; if (!gen->getPositionOnObject(p, d)) return J("nothing"); l.add(Obj().set("p", v_(p, 100)).set("d", v_(d, 1000))); }
    return l;
}
OP("app")
{
    Eigen::Matrix4f p = gen->createNewApproachPose(), was = gen->getEEFPose();
    J q = hq(gen->getEEFRobotClone());
    gen->setEEFPose(p); bool t = deep(); gen->setEEFPose(was);
    return Obj().set("p", p100(p)).set("d", v_(gen->getApproachDirGlobal(), 1000)).set("hit", t);
}
OP("rand") { bool b = gen->setEEFToRandomApproachPose(); return Obj().set("b", b).set("d", v_(gen->getApproachDirGlobal(), 1000)).set("hit", deep()); }
OP("par") { float q = (float)a.n() / 1000.f; planner->setParameters(q, a.b()); return J(true); }
OP("retr") { planner->setRetreatOnLowContacts(a.b()); return J(true); }
OP("clr") { planner->clearEvaluation(); return J(true); }
OP("rmg") { if (!gset->getSize()) return J(false); return J(gset->removeGrasp(gset->getGrasp(0))); }
static J evals()
{
    GraspPlannerEvaluation e = planner->getEvaluation();
    int valid = 0, power = 0; for (bool b : e.graspValid) valid += b; for (bool b : e.graspTypePower) power += b;
    return Obj().set("gen", e.nrGraspsGenerated).set("ok", e.nrGraspsValid).set("col", e.nrGraspsInvalidCollision).set("fc", e.nrGraspsInvalidFC).set("con", e.nrGraspsInvalidContacts)
           .set("pow", e.nrGraspsValidPower).set("prec", e.nrGraspsValidPrecision).set("nt", (int)e.timeGraspMS.size()).set("ns", (int)e.graspScore.size()).set("nv", (int)e.graspValid.size())
           .set("np", (int)e.graspTypePower.size()).set("vt", valid).set("pt", power);
}
static J graspInfo(const GraspPtr& g, bool last)
{
    Obj c; std::map<std::string, float> m = g->getConfiguration();
    c.set("_", 0); for (auto& x : m) c.set(x.first, R_(x.second, 100));
    Obj o;
    o.set("nm", g->getName()).set("rt", g->getRobotType()).set("ef", g->getEefName()).set("q", R_(g->getQuality(), 1e5)).set("cfg", c)
     .set("tcp", p100(g->getTcpPoseGlobal(gen->getObject()->getGlobalPose())));
    // the hand as the grasp describes it, on a robot of its own, does not meet the obstacles
    RobotPtr r = hand->createEefRobot("check", "check"); EndEffectorPtr e = r->getEndEffector(hand->getName());
    r->setJointValues(m);
    r->setGlobalPoseForRobotNode(e->getTcp(), g->getTcpPoseGlobal(gen->getObject()->getGlobalPose()));
    o.set("clear", !(obs && obs->getSize() && r->getCollisionChecker()->checkCollision(e->createSceneObjectSet(), obs)));
    return o;
}
static J contactInfo()
{
    Arr l;
    for (auto& c : planner->getContacts())
    {
        bool ok = c.obstacle == gen->getObject() && c.eef == gen->getEEF();
        l.add(Obj().set("ok", ok).set("ol", v_(c.contactPointObstacleLocal, 100)).set("og", v_(c.contactPointObstacleGlobal, 100)).set("fg", v_(c.contactPointFingerGlobal, 100)));
    }
    return l;
}
OP("pg")
{
    bool o = a.b();
    size_t had = gset->getSize();
    GraspPtr g = planner->planGrasp(o ? obs : SceneObjectSetPtr());
    Obj r;
    r.set("b", (bool)g).set("e", evals()).set("con", contactInfo()).set("hito", o && hits(obs)).set("hit", touches()).set("size", (int)gset->getSize())
     .set("at", p100(gen->getEEF()->getTcp()->getGlobalPose())).set("cq", hq(gen->getEEFRobotClone()));
    if (planner->getContacts().size() >= 2)
    {
        boost::shared_ptr<GraspQualityMeasureWrenchSpace> m = meas;
        m->setContactPoints(planner->getContacts());
        r.set("fc", m->isGraspForceClosure()).set("q", R_(m->getGraspQuality(), 1e5));
    }
    if (g) r.set("g", graspInfo(g, true));
    return r;
}
OP("plan")
{
    int n = a.n(), t = a.n(); bool o = a.b();
    size_t had = planner->getPlannedGrasps().size(), in = gset->getSize();
    int k = planner->plan(n, t, o ? obs : SceneObjectSetPtr());
    Arr l; std::vector<GraspPtr> p = planner->getPlannedGrasps();
    bool same = p.size() >= had && gset->getSize() >= in && p.size() - had == gset->getSize() - in;
    for (size_t x = had; x < p.size(); x++) { l.add(graspInfo(p[x], false)); if (same && gset->getGrasp(in + x - had) != p[x]) same = false; }
    return Obj().set("n", k).set("g", l).set("same", same).set("size", (int)gset->getSize()).set("e", evals());
}
// ------------------------------------------------------------------ hulls, cones, wrenches
static std::vector<Eigen::Vector3f> points(Args& a) { auto l = a.nums(); std::vector<Eigen::Vector3f> r; for (size_t x = 0; x + 3 <= l.size(); x += 3) r.push_back(Eigen::Vector3f(l[x], l[x + 1], l[x + 2])); return r; }
OP("hull")
{
    std::string how = a.s(); auto ps = points(a), was = ps;
    MathTools::ConvexHull3DPtr h;
    if (how == "mesh") { TriMeshModelPtr m(new TriMeshModel()); m->vertices = ps; h = ConvexHullGenerator::CreateConvexHull(m); }
    else h = ConvexHullGenerator::CreateConvexHull(ps, how != "nolock");
    Arr f;
    for (auto& t : h->faces)
    {
        Arr v; for (unsigned k : {t.id1, t.id2, t.id3}) { if (k >= h->vertices.size()) throw std::runtime_error("index"); Arr c; for (int d = 0; d < 3; d++) c.add(jI(h->vertices[k][d], 1e-3)); v.add(c); }
        f.add(Obj().set("v", v).set("n", v_(t.normal, 1e4)));
    }
    Obj o; o.set("f", f).set("nv", (int)h->vertices.size());
    if (!h->faces.empty()) o.set("vol6", jI(6.0 * h->volume, 0.3)).set("c", v_(h->center, 1000)).set("md", R_(h->maxDistFacetCenter, 1000));
    return o;
}
OP("cone")
{
    int n = a.n(); float mu = (float)a.n() / 100.f, uf = (float)a.n() / 10.f, force = (float)a.n() / 10.f; Eigen::Vector3f p = a.v3(), nn = a.v3(); nn.normalize();
    ContactConeGenerator g(n, mu, uf);
    MathTools::ContactPoint c; c.p = p; c.n = nn; c.force = force;
    std::vector<MathTools::ContactPoint> l(1, c); std::vector<Eigen::Vector3f> w(1, p);
    g.computeConePoints(c, l); g.computeConePoints(c, w);
    if (l.size() != w.size()) return J("the two forms differ");
    Arr r; bool kept = (l[0].p - p).norm() == 0 && (w[0] - p).norm() == 0, same = true;
    for (size_t x = 1; x < l.size(); x++) { r.add(Obj().set("p", v_(l[x].p - p, 1000)).set("n", v_(l[x].n, 1000)).set("f", R_(l[x].force, 1000))); if ((l[x].p - w[x]).norm() > 1e-4) same = false; }
    return Obj().set("l", r).set("kept", kept).set("same", same).set("ang", R_(tan(g.getConeAngle()), 1000)).set("rad", R_(g.getConeRadius(), 1000)).set("hgt", R_(g.getConeHeight(), 1000));
}
static std::map<std::string, boost::shared_ptr<GraspQualityMeasureWrenchSpace>> Q;
static std::map<std::string, std::vector<double>> given;      // the contacts of every measure
static std::string lastQ;
static boost::shared_ptr<GraspQualityMeasureWrenchSpace> measure(Args& a) { std::string k = a.s(); if (!Q.count(k)) throw std::logic_error("script: no measure " + k); lastQ = k; return Q[k]; }
OP("qreset") { Q.clear(); given.clear(); O.clear(); return J(true); }
OP("qnew")
{
    std::string id = a.s(), o = a.s(); float uf = (float)a.n() / 10.f, mu = (float)a.n() / 100.f; int n = a.n();
    boost::shared_ptr<GraspQualityMeasureWrenchSpace> m(new GraspQualityMeasureWrenchSpace(object(o), uf, mu, n));
    Q[id] = m; given[id].clear();
    return Obj().set("com", v_(m->getCoM(), 100)).set("obj", m->getObject() == object(o)).set("nm", m->getName());
}
OP("wrench")      // contacts (position in m * 1000, normal * 10), centre, length -> wrench
{
    auto l = a.nums(); Eigen::Vector3f c = a.v3(); float len = (float)a.n();
    std::vector<MathTools::ContactPoint> v;
    for (size_t x = 0; x + 6 <= l.size(); x += 6) { MathTools::ContactPoint p; p.p = Eigen::Vector3f(l[x], l[x + 1], l[x + 2]); p.n = Eigen::Vector3f(l[x + 3], l[x + 4], l[x + 5]); p.force = 1; v.push_back(p); }
    auto w = GraspQualityMeasureWrenchSpace::createWrenchPoints(v, c, len);
    Arr r; for (auto& x : w) r.add(Obj().set("f", v_(x.p, 1)).set("t", v_(x.n, 1000)));
    return r;
}
static std::vector<MathTools::ContactPoint> cps(const std::vector<double>& l)
{
    std::vector<MathTools::ContactPoint> v;
    for (size_t x = 0; x + 6 <= l.size(); x += 6) { MathTools::ContactPoint p; p.p = Eigen::Vector3f(l[x], l[x + 1], l[x + 2]); p.n = Eigen::Vector3f(l[x + 3], l[x + 4], l[x + 5]); p.force = 1; v.push_back(p); }
    return v;
}
static void center(Obj& o, const boost::shared_ptr<GraspQualityMeasureWrenchSpace>& m) { auto c = m->getContactPointsCenter(); o.set("cp", v_(c.p, 100)).set("cn", v_(c.n, 1000)); }
OP("qset") { auto m = measure(a); auto l = a.nums(); given[lastQ] = l; m->setContactPoints(cps(l)); Obj o; center(o, m); return o; }
OP("qinf")      // the same as contacts of an end effector: on the obstacle at p, finger at p + 5 n, closing along -n
{
    auto m = measure(a); EndEffector::ContactInfoVector v; Eigen::Matrix4f g = m->getObject()->getGlobalPose();
    auto l = a.nums(); given[lastQ] = l;
    for (auto& c : cps(l))
    {
        EndEffector::ContactInfo i; i.obstacle = m->getObject(); i.distance = 5;
        i.contactPointObstacleLocal = c.p; i.contactPointFingerLocal = c.p + 5 * c.n.normalized();
        i.contactPointObstacleGlobal = (g * Eigen::Vector4f(i.contactPointObstacleLocal(0), i.contactPointObstacleLocal(1), i.contactPointObstacleLocal(2), 1)).head(3);
        i.contactPointFingerGlobal = (g * Eigen::Vector4f(i.contactPointFingerLocal(0), i.contactPointFingerLocal(1), i.contactPointFingerLocal(2), 1)).head(3);
        i.approachDirectionGlobal = (i.contactPointObstacleGlobal - i.contactPointFingerGlobal).normalized();
        v.push_back(i);
    }
    m->setContactPoints(v); Obj o; center(o, m); return o;
}
OP("qpre") { auto m = measure(a); float d = (float)a.n() / 1000.f; m->preCalculatedOWS(d, (float)a.n() / 1000.f); return J(true); }
static J w6(const MathTools::ContactPoint& p, double s) { Arr r; for (int d = 0; d < 3; d++) r.add(R_(p.p(d), s)); for (int d = 0; d < 3; d++) r.add(R_(p.n(d), s)); return r; }
OP("qask")
{
    auto m = measure(a); bool full = a.b();
    Obj o;
    bool fc = m->isGraspForceClosure(), valid = m->isValid();
    o.set("fc", fc).set("valid", valid).set("q", R_(m->getGraspQuality(), 1e5)).set("v", R_(m->getVolumeGraspMeasure(), 1e5)).set("ows", R_(m->getOWSMinOffset(), 1e5)).set("has", m->GWSExists())
     .set("again", m->isGraspForceClosure() == fc).set("q2", R_(m->getGraspQuality(), 1e5));
    MathTools::ConvexHull6DPtr h = m->getConvexHullGWS();
    o.set("mo", h && m->GWSExists() ? R_(GraspQualityMeasureWrenchSpace::minOffset(h), 1e5) : 0);
    bool sure = true;      // the origin is not close to the boundary
    if (h && m->GWSExists() && !h->faces.empty()) { double mz = -1e9; for (auto& t : h->faces) mz = std::max(mz, (double)t.distPlaneZero); sure = std::fabs(mz) > 5e-4; }
    o.set("sure", sure);
    if (full && h && m->GWSExists())
    {
        Arr f; std::vector<std::array<double, 6>> seen; Arr vs;
        auto id = [&](const MathTools::ContactPoint& p)
        {
            std::array<double, 6> q = {{p.p(0), p.p(1), p.p(2), p.n(0), p.n(1), p.n(2)}};
            for (size_t k = 0; k < seen.size(); k++) { double d = 0; for (int x = 0; x < 6; x++) d = std::max(d, std::fabs(seen[k][x] - q[x])); if (d < 1e-5) return (int)k + 1; }
            seen.push_back(q); vs.add(w6(p, 1e4)); return (int)seen.size();
        };
        for (auto& t : h->faces)
        {
            Arr v; for (int k = 0; k < 6; k++) v.add(id(h->vertices.at(t.id[k])));
            f.add(Obj().set("v", v).set("n", w6(t.normal, 1e4)).set("o", R_(t.offset, 1e4)).set("z", R_(t.distPlaneZero, 1e4)).set("c", R_(t.distNormCenter, 1e4)));
        }
        // the wrenches of the contacts, from the parts checked by "cone" and "wrench"
        std::vector<MathTools::ContactPoint> cone; Eigen::Vector3f mn, mx;
        for (auto& c : cps(given[lastQ])) { MathTools::ContactPoint q = c; q.p = (q.p - m->getCoM()) / 1000.f; q.n.normalize(); m->getConeGenerator()->computeConePoints(q, cone); }
        m->getObject()->getCollisionModel()->getTriMeshModel()->getSize(mn, mx);
        Arr W; for (auto& x : GraspQualityMeasureWrenchSpace::createWrenchPoints(cone, Eigen::Vector3f::Zero(), (mx - mn).maxCoeff())) W.add(w6(x, 1e4));
        o.set("W", W).set("len", R_((mx - mn).maxCoeff(), 100));
        o.set("f", f).set("w", vs).set("ctr", w6(m->getCenterGWS(), 1e4));
    }
    return o;
}

static void state(const std::string& op, Obj& o)
{
    if (!gen) return;
    Obj ob; for (auto& x : O) ob.set(x.first, pose(x.second->getGlobalPose()));
    o.set("st", Obj().set("rp", pose(rob->getGlobalPose())).set("rq", hq(rob)).set("ob", ob).set("eef", p100(gen->getEEFPose())).set("bef", residual(gen->getEEFPose(), gen->ApproachMovementGenerator::getEEFPose())).set("cq", hq(gen->getEEFRobotClone())));
}
static struct Init { Init() { projector() = state; } } init;
int main(int argc, char** argv) { return drv::main(argc, argv); }
