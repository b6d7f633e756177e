// Driver for workspace data and grids of base positions (C16).
#include "drv.h"
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/WorkspaceGrid.h>
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace drv;

struct Ws { WorkspaceRepresentationPtr w; std::vector<int> h, lo; bool based; std::string ori; };
struct Gr { WorkspaceGridPtr g; std::vector<int> h; };
static std::map<std::string, Ws> W;
static std::map<std::string, Gr> G;
static std::map<std::string, Ws> F;
static std::map<std::string, GraspPtr> S;
static RobotPtr robot;

static const char* XML = "<Robot Type='wsr' RootNode='base'>"
    "<RobotNode name='base'><Child name='jx'/></RobotNode>"
    "<RobotNode name='jx'><Joint type='prismatic'><TranslationDirection x='1' y='0' z='0'/><Limits unit='mm' lo='-9000' hi='9000'/></Joint><Child name='jy'/></RobotNode>"
    "<RobotNode name='jy'><Joint type='prismatic'><TranslationDirection x='0' y='1' z='0'/><Limits unit='mm' lo='-9000' hi='9000'/></Joint><Child name='jz'/></RobotNode>"
    "<RobotNode name='jz'><Joint type='prismatic'><TranslationDirection x='0' y='0' z='1'/><Limits unit='mm' lo='-9000' hi='9000'/></Joint><Child name='ra'/></RobotNode>"
    "<RobotNode name='ra'><Joint type='revolute'><Axis x='0' y='0' z='1'/><Limits unit='degree' lo='-180' hi='180'/></Joint><Child name='rb'/></RobotNode>"
    "<RobotNode name='rb'><Joint type='revolute'><Axis x='0' y='1' z='0'/><Limits unit='degree' lo='-180' hi='180'/></Joint><Child name='rc'/></RobotNode>"
    "<RobotNode name='rc'><Joint type='revolute'><Axis x='1' y='0' z='0'/><Limits unit='degree' lo='-180' hi='180'/></Joint><Child name='tcp'/></RobotNode>"
    "<RobotNode name='tcp'/>"
    "<RobotNodeSet name='chain' kinematicRoot='base' tcp='tcp'><Node name='jx'/><Node name='jy'/><Node name='jz'/><Node name='ra'/><Node name='rb'/><Node name='rc'/></RobotNodeSet>"
    "</Robot>";

static void need()
{
    if (!robot) robot = RobotIO::createRobotFromString(XML);
    if (!robot) throw std::logic_error("script: no robot");
}
static Ws& ws(Args& a) { std::string k = a.s(); if (!W.count(k)) throw std::logic_error("script: no workspace " + k); return W[k]; }
static Gr& gr(Args& a) { std::string k = a.s(); if (!G.count(k)) throw std::logic_error("script: no grid " + k); return G[k]; }
static GraspPtr grasp(const std::string& n)
{
    if (n.empty() || n == "-") return GraspPtr();
    if (!S[n]) S[n].reset(new Grasp(n, "wsr", "hand", Eigen::Matrix4f::Identity()));
    return S[n];
}
static int nvox(const Ws& w, int d) { return w.h[d] / 2 + 1; }
static float vox(const Ws& w, int d) { return d < 3 ? w.h[d] * 50.0f / nvox(w, d) : w.h[d] * 0.25f / nvox(w, d); }
static void coords(const Ws& w, const std::vector<double>& q, float x[6])
{
    for (int d = 0; d < 3; d++) x[d] = w.lo[d] + q[d] * 0.25f * vox(w, d);
    for (int d = 3; d < 6; d++) x[d] = 0.25f + (q[d] + 0.5f) * vox(w, d);
}
// own conversion: it does not go through the code under test
static Eigen::Matrix4f matrix(const Ws& w, const float x[6])
{
    typedef Eigen::AngleAxisd A;
    Eigen::Vector3d X = Eigen::Vector3d::UnitX(), Y = Eigen::Vector3d::UnitY(), Z = Eigen::Vector3d::UnitZ();
    double a = x[3], b = x[4], c = x[5];
    Eigen::Matrix3d r;
    if (w.ori == "xyz") r = (A(a, X) * A(b, Y) * A(c, Z)).toRotationMatrix();
    else if (w.ori == "ext") r = (A(c, X) * A(b, Y) * A(a, Z)).toRotationMatrix();
    else if (w.ori == "rpy") r = (A(c, Z) * A(b, Y) * A(a, X)).toRotationMatrix();
    else // hopf: a = t12 - t43, b = t12 + t43; |(x, y)| = sin c
    {
        double s = (a + b) / 2, t = (b - a) / 2;
        r = Eigen::Quaterniond(cos(c) * cos(t), sin(c) * cos(s), sin(c) * sin(s), cos(c) * sin(t)).toRotationMatrix();
    }
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.block<3, 3>(0, 0) = r;
    for (int d = 0; d < 3; d++) m(d, 3) = x[d];
    return m.cast<float>();
}
static Eigen::Matrix4f global(const Ws& w, const std::vector<double>& q)
{
    float x[6];
    coords(w, q, x);
    Eigen::Matrix4f m = matrix(w, x);
    if (w.based) m = robot->getGlobalPose() * m;
    return m;
}
static std::vector<double> six(Args& a) { std::vector<double> v = a.nums(); if (v.size() != 6) throw std::logic_error("script: six numbers"); return v; }
static J list(const unsigned* v, int n) { Arr r; for (int i = 0; i < n; i++) r.add(v[i]); return r; }
static void project(Obj& o)
{
    Obj all, gs;
    all.set("_", 0);
    gs.set("_", 0);
    for (auto& p : W)
    {
        WorkspaceDataPtr d = p.second.w->getData();
        Arr c;
        if (d)
        {
            unsigned v[6], n[6];
            for (int i = 0; i < 6; i++) n[i] = d->getSize(i);
            for (v[0] = 0; v[0] < n[0]; v[0]++) for (v[1] = 0; v[1] < n[1]; v[1]++) for (v[2] = 0; v[2] < n[2]; v[2]++)
                for (v[3] = 0; v[3] < n[3]; v[3]++) for (v[4] = 0; v[4] < n[4]; v[4]++) for (v[5] = 0; v[5] < n[5]; v[5]++)
                {
                    int e = d->get(v);
                    if (e) c.add(Obj().set("v", list(v, 6)).set("e", e));
                }
        }
        all.set(p.first, Obj().set("cells", c).set("max", p.second.w->getMaxEntry()).set("filled", d ? (int)d->getVoxelFilledCount() : -1));
    }
    for (auto& p : G)
    {
        Arr c, s;
        int nx, ny;
        p.second.g->getCells(nx, ny);
        for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++)
        {
            int e = 0;
            std::vector<GraspPtr> l;
            p.second.g->getCellEntry(x, y, e, l);
            Arr xy; xy.add(x).add(y);
            if (e) c.add(Obj().set("c", xy).set("e", e));
            Arr names;
            for (auto& g : l) names.add(g->getName());
            if (!l.empty()) s.add(Obj().set("c", xy).set("s", names));
        }
        gs.set(p.first, Obj().set("val", c).set("gr", s));
    }
    o.set("ws", all).set("grids", gs);
}
static struct Init { Init() { projector() = [](const std::string&, Obj& o) { project(o); }; } } init;

static WorkspaceRepresentation::eOrientationType orient(const std::string& s)
{
    return s == "rpy" ? WorkspaceRepresentation::RPY : s == "xyz" ? WorkspaceRepresentation::EulerXYZ : s == "ext" ? WorkspaceRepresentation::EulerXYZExtrinsic : WorkspaceRepresentation::Hopf;
}
static WorkspaceRepresentationPtr make(const std::string& kind)
{
    need();
    if (kind == "reach") return ReachabilityPtr(new Reachability(robot));
    return WorkspaceRepresentationPtr(new WorkspaceRepresentation(robot));
}
OP("new")
{
    std::string id = a.s();
    Ws w;
    for (double v : a.nums()) w.h.push_back((int)v);
    for (double v : a.nums()) w.lo.push_back((int)v);
    bool adj = a.b();
    w.based = a.b();
    w.ori = a.s();
    w.w = make(a.s());
    if (w.ori != "hopf") w.w->setOrientationType(orient(w.ori));
    float lo[6], hi[6];
    for (int d = 0; d < 6; d++)
    {
        lo[d] = d < 3 ? (float)w.lo[d] : 0.25f;
        hi[d] = lo[d] + (d < 3 ? 50.0f : 0.25f) * w.h[d];
    }
    w.w->initialize(robot->getRobotNodeSet("chain"), 100.0f, 0.5f, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), w.based ? robot->getRobotNode("base") : RobotNodePtr(), RobotNodePtr(), adj);
    W[id] = w;
    Arr n;
    for (int d = 0; d < 6; d++) n.add(w.w->getNumVoxels(d));
    return n;
}
OP("move") { need(); robot->setGlobalPose(a.pose()); return 0; }
OP("add")
{
    Ws& w = ws(a);
    Eigen::Matrix4f m = global(w, six(a));
    for (int k = a.n(); k > 0; k--) w.w->addPose(m);
    return 0;
}
OP("set")
{
    Ws& w = ws(a);
    Eigen::Matrix4f m = global(w, six(a));
    int e = a.n(), k = a.n();
    if (k == 0) w.w->setEntry(m, (unsigned char)e); else w.w->setEntryCheckNeighbors(m, (unsigned char)e, (unsigned)k);
    return 0;
}
OP("tcp")
{
    Ws& w = ws(a);
    Eigen::Matrix4f m = robot->getGlobalPose().inverse() * global(w, six(a));
    std::string how = a.s();
    int e = a.n();
    double pitch = std::atan2(-(double)m(2, 0), std::sqrt((double)m(0, 0) * m(0, 0) + (double)m(1, 0) * m(1, 0)));
    std::vector<float> j = { m(0, 3), m(1, 3), m(2, 3), (float)std::atan2((double)m(1, 0), (double)m(0, 0)), (float)pitch, (float)std::atan2((double)m(2, 1), (double)m(2, 2)) };
    robot->setJointValues(robot->getRobotNodeSet("chain"), j);
    if (how == "add") w.w->addCurrentTCPPose();
    else if (how == "set") w.w->setCurrentTCPPoseEntry((unsigned char)e);
    else w.w->setCurrentTCPPoseEntryIfLower((unsigned char)e);
    return 0;
}
static void toV(const std::vector<double>& q, unsigned v[6]) { for (int d = 0; d < 6; d++) v[d] = (unsigned)q[d]; }
OP("setv")
{
    Ws& w = ws(a);
    unsigned v[6];
    toV(six(a), v);
    int e = a.n(), k = a.n();
    std::string how = a.s();
    if (how == "w") w.w->setVoxelEntry(v, (unsigned char)e);
    else if (how == "d") w.w->getData()->setDatum(v[0], v[1], v[2], v[3], v[4], v[5], (unsigned char)e);
    else w.w->getData()->setDatumCheckNeighbors(v, (unsigned char)e, (unsigned)k);
    return 0;
}
OP("bin") { ws(a).w->binarize(); return 0; }
OP("bis") { ws(a).w->getData()->bisectData(); return 0; }
OP("clear") { ws(a).w->clear(); return 0; }
OP("holes") { Ws& w = ws(a); return w.w->fillHoles((unsigned)a.n()); }
OP("clone") { Ws& w = ws(a); std::string to = a.s(); Ws r = w; r.w = w.w->clone(); W[to] = r; return 0; }
OP("save") { Ws& w = ws(a); std::string f = a.s(); w.w->save(f + ".bin"); F[f] = w; return 0; }
OP("load")
{
    std::string id = a.s(), f = a.s(), kind = a.s();
    bool own = a.b();
    WorkspaceRepresentationPtr w = own && W.count(id) ? W[id].w : make(kind);
    w->load(f + ".bin");
    Ws r = F[f];
    r.w = w;
    W[id] = r;
    return 0;
}
OP("get")
{
    Ws& w = ws(a);
    std::vector<double> q = six(a);
    Eigen::Matrix4f m = global(w, q);
    Obj o;
    o.set("entry", (int)w.w->getEntry(m)).set("cov", w.w->isCovered(m));
    unsigned v[6], p[3];
    o.set("vox", w.w->getVoxelFromPose(m, v) ? list(v, 6) : J(Arr()));
    o.set("posvox", w.w->getVoxelFromPosition(m, p) ? list(p, 3) : J(Arr()));
    Eigen::Vector3f x = m.block<3, 1>(0, 3);
    o.set("maxpos", w.w->getMaxEntry(x));
    return o;
}
OP("vget")
{
    Ws& w = ws(a);
    unsigned v[6];
    toV(six(a), v);
    int e = w.w->getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]);
    bool in = true;
    for (int d = 0; d < 6; d++) in = in && v[d] < (unsigned)w.w->getNumVoxels(d);
    if (in && (w.w->isCovered(v) != (e > 0) || w.w->getData()->get(v) != e)) return BAD;
    return e;
}
OP("at")
{
    Ws& w = ws(a);
    std::vector<double> v = a.nums();
    int x = (int)v[0], y = (int)v[1], z = (int)v[2];
    return Obj().set("sum", w.w->sumAngleReachabilities(x, y, z)).set("avg", w.w->avgAngleReachabilities(x, y, z)).set("max", w.w->getMaxEntry(x, y, z)).set("has", w.w->hasEntry(x, y, z));
}
static J corner(const Ws& w, const Eigen::Vector3f& p)
{
    if (std::fabs(p(0)) > 1e30) return Arr();
    Arr r;
    for (int d = 0; d < 3; d++) r.add(jI((p(d) - w.lo[d]) / vox(w, d) * 4, 0.05));
    return r;
}
OP("tot")
{
    Ws& w = ws(a);
    WorkspaceRepresentation::VolumeInfo v = w.w->computeVolumeInformation();
    boost::shared_ptr<WorkspaceDataArray> d = boost::dynamic_pointer_cast<WorkspaceDataArray>(w.w->getData());
    MathTools::OOBB b = w.w->getOOBB(true);
    return Obj().set("maxsum", w.w->getMaxSummedAngleReachablity()).set("dsum", d->getMaxSummedAngleReachablity()).set("max", w.w->getMaxEntry())
           .set("all", v.voxelCount3D).set("fil", v.filledVoxelCount3D).set("bor", v.borderVoxelCount3D)
           .set("amin", corner(w, b.minBB)).set("amax", corner(w, b.maxBB));
}
OP("mid")
{
    Ws& w = ws(a);
    unsigned v[6], r[6];
    toV(six(a), v);
    Obj o;
    Eigen::Matrix4f m = w.w->getPoseFromVoxel(v, true);
    o.set("a", w.w->getVoxelFromPose(m, r) ? list(r, 6) : J(Arr()));
    float x[6];
    bool ok = w.w->getPoseFromVoxel(v, x) && w.w->getVoxelFromPose(x, r);
    o.set("b", ok ? list(r, 6) : J(Arr()));
    return o;
}
OP("sample")
{
    Ws& w = ws(a);
    if (w.w->getMaxEntry() == 0) return 0;
    Eigen::Matrix4f m = w.w->sampleCoveredPose();
    unsigned r[6];
    return w.w->getVoxelFromPose(m, r) ? list(r, 6) : J(Arr());
}
OP("cut")
{
    Ws& w = ws(a);
    Eigen::Matrix4f m = global(w, six(a));
    bool sum = a.b();
    WorkspaceRepresentation::WorkspaceCut2DPtr c = w.w->createCut(m, 100.0f, sum);
    Arr l, t;
    for (int x = 0; x < c->entries.rows(); x++) for (int y = 0; y < c->entries.cols(); y++)
        if (c->entries(x, y)) l.add(Obj().set("a", x).set("b", y).set("e", c->entries(x, y)));
    for (auto& p : w.w->createCutTransformations(c))
    {
        Eigen::Matrix4f g = p->transformation;
        bool same = true;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) same = same && std::fabs(g(i, j) - m(i, j)) < 1e-4;
        same = same && std::fabs(g(2, 3) - m(2, 3)) < 0.01;
        t.add(Obj().set("a", same ? jI((g(0, 3) - c->minBounds[0]) / 100 - 0.5) : J(BAD)).set("b", jI((g(1, 3) - c->minBounds[1]) / 100 - 0.5)).set("e", p->value));
    }
    return Obj().set("cut", l).set("tr", t);
}
OP("reach")
{
    Ws& w = ws(a);
    ReachabilityPtr r = boost::dynamic_pointer_cast<Reachability>(w.w);
    if (!r) throw std::runtime_error("no reachability");
    Eigen::Matrix4f obj = a.pose();
    ManipulationObjectPtr o(new ManipulationObject("o"));
    o->setGlobalPose(obj);
    GraspSetPtr gs(new GraspSet("gs", "wsr", "hand"));
    int n = a.n();
    for (int k = 0; k < n; k++)
    {
        std::string name = a.s();
        Eigen::Matrix4f g = global(w, six(a));
        gs->addGrasp(GraspPtr(new Grasp(name, "wsr", "hand", g.inverse() * obj)));
    }
    GraspSetPtr res = r->getReachableGrasps(gs, o);
    Arr l;
    for (unsigned k = 0; k < res->getSize(); k++) l.add(res->getGrasp(k)->getName());
    return l;
}
// ---------------------------------------------------------------- grids
OP("gnew")
{
    std::string id = a.s();
    Gr g;
    for (double v : a.nums()) g.h.push_back((int)v);
    std::vector<double> p = a.nums();
    g.g.reset(new WorkspaceGrid(p[0], p[0] + g.h[0] * 50, p[1], p[1] + g.h[1] * 50, 100));
    G[id] = g;
    int x, y;
    g.g->getCells(x, y);
    return Arr().add(x).add(y);
}
static void place(const Gr& g, const std::vector<double>& q, float& x, float& y)
{
    x = g.g->getMin()(0) + q[0] * 0.25f * (g.h[0] * 50.0f / (g.h[0] / 2 + 1));
    y = g.g->getMin()(1) + q[1] * 0.25f * (g.h[1] * 50.0f / (g.h[1] / 2 + 1));
}
OP("gset")
{
    Gr& g = gr(a);
    float x, y;
    place(g, a.nums(), x, y);
    int e = a.n();
    GraspPtr s = grasp(a.s());
    if (a.b()) g.g->setEntryCheckNeighbors(x, y, e, s); else g.g->setEntry(x, y, e, s);
    return 0;
}
OP("gcell") { Gr& g = gr(a); std::vector<double> c = a.nums(); int e = a.n(); g.g->setCellEntry((int)c[0], (int)c[1], e, grasp(a.s())); return 0; }
OP("gget")
{
    Gr& g = gr(a);
    float x, y;
    place(g, a.nums(), x, y);
    int e2 = 0, e3 = 0;
    std::vector<GraspPtr> l;
    GraspPtr one;
    bool in = g.g->getEntry(x, y, e2, l);
    bool in3 = g.g->getEntry(x, y, e3, one);
    Arr s;
    bool found = !one;
    for (auto& p : l) { s.add(p->getName()); found = found || p == one; }
    if (in != in3 || e2 != e3 || !found) s.add("bad");
    return Obj().set("e", g.g->getEntry(x, y)).set("e2", e2).set("in", in).set("gs", s).set("max", g.g->getMaxEntry());
}
OP("greset") { gr(a).g->reset(); return 0; }
OP("gmove")
{
    Gr& g = gr(a);
    std::vector<double> p = a.nums();
    g.g->setGridPosition(p[0] + g.h[0] * 25.0, p[1] + g.h[1] * 25.0);
    float x0, x1, y0, y1;
    g.g->getExtends(x0, x1, y0, y1);
    if (I(x1 - x0) != g.h[0] * 50 || I(y1 - y0) != g.h[1] * 50) return BAD;
    return Arr().add(jI(x0)).add(jI(y0));
}
OP("grand")
{
    Gr& g = gr(a);
    int min = a.n();
    float x = 0, y = 0;
    GraspPtr s;
    bool f = g.g->getRandomPos(min, x, y, s, 200);
    return Obj().set("found", f).set("e", f ? g.g->getEntry(x, y) : 0).set("s", f && s ? s->getName() : "");
}
OP("gfill")
{
    Gr& g = gr(a);
    Ws& w = ws(a);
    Eigen::Matrix4f m = global(w, six(a));
    GraspPtr s = grasp(a.s());
    if (a.b())
    {   // the robot stands somewhere else meanwhile
        Eigen::Matrix4f p = robot->getGlobalPose(), o = Eigen::Matrix4f::Identity();
        o(0, 3) = 370; o(1, 3) = -130;
        robot->setGlobalPose(o);
        g.g->fillGridData(w.w, m, s, robot->getRobotNode("base"));
        if (!robot->getGlobalPose().isApprox(o)) throw std::runtime_error("robot moved");
        robot->setGlobalPose(p);
    }
    else g.g->fillGridData(w.w, m, s, RobotNodePtr());
    return 0;
}
OP("gmerge")
{
    std::vector<WorkspaceGridPtr> v;
    for (auto& k : a.strs()) { if (!G.count(k)) throw std::logic_error("script: no grid"); v.push_back(G[k].g); }
    WorkspaceGridPtr m = WorkspaceGrid::MergeWorkspaceGrids(v);
    int nx, ny;
    m->getCells(nx, ny);
    Arr c;
    for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) c.add(Obj().set("c", Arr().add(x).add(y)).set("e", m->getCellEntry(x, y)));
    return Obj().set("n", Arr().add(nx).add(ny)).set("val", c);
}
int main(int argc, char** argv) { return drv::main(argc, argv); }
