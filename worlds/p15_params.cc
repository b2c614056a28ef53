// P15: the parameters of the robots read back as last accepted, whatever was refused.
#include "dg.hh"
#include <set>
#include <sot/core/parameter-server.hh>
#include <sot/core/robot-utils.hh>
using namespace sim;
using namespace dgw;
namespace ds = dynamicgraph::sot;

namespace {
struct Server : ds::ParameterServer {
  using ds::ParameterServer::ParameterServer;
  bool inRange(unsigned id, double q) { return isJointInRange(id, q); }
  bool jointId(const std::string& n, unsigned& id) { return convertJointNameToJointId(n, id); }
};
struct Names {   // a name has one identifier; an identifier shows the name it was given last among those which still have it
  std::map<std::string, long> id; std::map<long, std::vector<std::string>> given;
  void set(const std::string& n, long i) { id[n] = i; given[i].push_back(n); }
  std::set<std::string> holders(long i) const { std::set<std::string> s; for (auto& x : id) if (x.second == i) s.insert(x.first); return s; }
  // the name that must be shown: the last given one if it never left; empty: any holder
  std::string last(long i) const { auto g = given.find(i); if (g == given.end() || g->second.empty()) return ""; const std::string& n = g->second.back(); auto it = id.find(n); return it != id.end() && it->second == i ? n : ""; }
};
struct Param { int type; std::string s; double d; long i; bool b; };
struct Robot {
  Names joint, force; std::map<long, std::pair<double, double>> lim; std::map<long, std::pair<Vec, Vec>> flim; Vec perm, sole, sensor; std::string lf, rf, lh, rh, imu, urdf; std::map<std::string, Param> par; std::map<std::string, long> ids{{"lf", -1}, {"rf", -1}, {"lh", -1}, {"rh", -1}};
};
struct W : World {
  const char* property() const override { return "P15"; }
  const char* rule() const override {
    return "seeded histories of 5-80 operations over up to 3 robots and 3 parameter servers: initialisations (also refused and repeated), names given again to other identifiers and identifiers to other names, limits, "
           "frames, named parameters of four types, joint maps (also with wrong entries) and conversions (also of wrong sizes, near the gimbal lock), with allocation failures inside the updates; everything is read back after each operation; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "commands (no clock)"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/parameter-server.cpp", "src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh", "include/sot/core/parameter-server.hh", "Boost property_tree, Eigen"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio/fwd.hpp (empty stand-in)", "operator new (fails on demand)"}; }
  std::vector<std::string> assumptions() const override { return {"identifiers are integers not below zero", "parameter names have no trailing slash and parameter values are finite", "quaternions have unit norm"}; }
  static std::string jn(Rng& r) { static const char* n[] = {"hip", "knee", "ankle", "a", "zz", "neck"}; return n[r.below(6)]; }
  static std::string fn(Rng& r) { static const char* n[] = {"rf", "lf", "rh", "lh", "aux", "rf2"}; return n[r.below(6)]; }
  static std::string pn(Rng& r) { static const char* n[] = {"/robot_description", "a", "/a", "a/b", "/specificities/feet/right/size/height", "/specificities/feet/right/size", "gain.p", "with space"}; return n[r.below(8)]; }
  static std::vector<double> perm(Rng& r, int n) { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = i; for (int i = n - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); return v; }
  void generate(Rng& r, Plan& p) override {
    int n = (int)r.range(5, 80), nr = (int)r.range(1, 3); bool clean = r.chance(1, 8); static const char* rob[] = {"talos", "r2", "robot"};
    for (int s = 0; s < 3; ++s) if (r.chance(2, 3)) p.ops.push_back(Op("init", {s, -1}, {0.001}, {"a.urdf", rob[r.below(nr)]}));
    for (int k = 0; k < n; ++k) {
      long long s = r.range(0, 2), af = !clean && r.chance(1, 12) ? r.range(0, 12) : -1; long long id = r.chance(1, 15) ? r.range(1000, 4000000000LL) : r.range(0, 4);
      auto vec = [&](int m) { std::vector<double> v; for (int i = 0; i < m; ++i) v.push_back(r.chance(1, 8) ? 0 : r.uniform(-3, 3)); return v; };
      switch (r.weighted({6, 3, 8, 7, 4, 4, 7, 2, 2, 3, 3, 2, 1, 8, 10, 1, 4, 2, 2})) {
        case 0: p.ops.push_back(Op("init", {s, af}, {!clean && r.chance(1, 6) ? (r.chance(1, 3) ? NAN : r.uniform(-1, 0)) : 0.001}, {r.chance(1, 2) ? "a.urdf" : "b.urdf", rob[r.below(nr)]})); break;
        case 1: p.ops.push_back(Op("simple", {s, af}, {!clean && r.chance(1, 6) ? 0.0 : 0.002})); break;
        case 2: p.ops.push_back(Op("joint", {s, af, id}, {}, {jn(r)})); break;
        case 3: p.ops.push_back(Op("force", {s, af, id}, {}, {fn(r)})); break;
        case 4: p.ops.push_back(Op("limits", {s, af, id}, {r.uniform(-2, 1), r.uniform(-1, 2)})); break;
        case 5: p.ops.push_back(Op("flimits", {s, af, id}, vec(12))); break;
        case 6: { std::vector<double> v = perm(r, (int)r.range(r.chance(1, 10) ? 0 : 1, 6)); if (!clean && !v.empty() && r.chance(1, 4)) { double bad[] = {-1, (double)v.size(), 0.5, NAN, 1e18, v[0]}; v[v.size() - 1] = bad[r.below(6)]; } p.ops.push_back(Op("map", {s, af, r.range(0, 3)}, v)); break; }
        case 7: p.ops.push_back(Op("sole", {s, af}, vec((int)3))); break;
        case 8: p.ops.push_back(Op("sensor", {s, af}, vec(3))); break;
        case 9: p.ops.push_back(Op("foot", {s, af}, {}, {r.chance(1, 5) ? "Middle" : r.chance(1, 2) ? "Left" : "Right", jn(r)})); break;
        case 10: p.ops.push_back(Op("hand", {s, af}, {}, {r.chance(1, 5) ? "left" : r.chance(1, 2) ? "Left" : "Right", jn(r)})); break;
        case 11: p.ops.push_back(Op("imu", {s, af}, {}, {jn(r)})); break;
        case 12: p.ops.push_back(Op("display", {s, -1})); break;
        case 13: { int t = (int)r.range(0, 3); p.ops.push_back(Op("set", {s, af, t, r.range(-2000000000LL, 2000000000LL)}, {r.chance(1, 3) ? std::ldexp(r.uniform(-1, 1), (int)r.range(-300, 300)) : r.uniform(-5, 5)}, {pn(r), r.chance(1, 4) ? "<xml a=\"1\">\n  text</xml>" : r.chance(1, 3) ? "" : "value " + jn(r)})); break; }
        case 14: p.ops.push_back(Op("convert", {s, -1, r.range(0, 5), !clean && r.chance(1, 5) ? r.range(1, 3) : 0, r.chance(1, 2) ? -1 : 1, r.chance(1, 4) ? r.range(1, 3) : 0}, vec(32))); break;
        case 15: p.ops.push_back(Op("remap", {s, -1})); break;
        case 16: p.ops.push_back(Op("range", {s, -1, id}, {r.chance(1, 6) ? NAN : r.uniform(-2, 2)}, {jn(r)})); break;
        case 17: p.ops.push_back(Op("create", {0, -1}, {}, {rob[r.below(nr)]})); break;
        case 18: {   // a robot description, perhaps cut in transit
          std::string x = r.chance(1, 2) ? "<?xml version=\"1.0\"?>\n" : ""; x += "<robot name=\"r\">\n"; std::vector<std::string> mim; int k = (int)r.range(0, 7);
          for (int j = 0; j < k; ++j) {
            std::string nm = jn(r) + fmt("_%d", j); bool mi = r.chance(1, 3);
            if (r.chance(1, 3)) x += "<link name=\"l" + nm + "\"><inertial><mass value=\"1\"/></inertial></link>\n"; if (r.chance(1, 4)) x += "<!-- joint mimic name -->\n";
            x += r.chance(1, 2) ? "<joint name=\"" + nm + "\" type=\"revolute\">" : "<joint type=\"revolute\" name=\"" + nm + "\">";
            bool before = r.chance(1, 2); std::string m = mi ? "<mimic joint=\"" + jn(r) + "\" multiplier=\"1.\" offset=\"0\"/>" : ""; if (before) x += m;
            if (r.chance(1, 2)) x += "<parent link=\"a\"/><child link=\"b\"/>\n"; if (r.chance(1, 3)) x += "<origin xyz=\"0 0 0\" rpy=\"0 0 0\"/><!-- c -->"; if (!before) x += m; x += "</joint>\n"; if (mi) mim.push_back(nm);
            if (r.chance(1, 4)) x += "<transmission name=\"t" + nm + "\"><type>x</type><joint name=\"" + nm + "\"><hardwareInterface>y</hardwareInterface></joint><actuator name=\"m\"/></transmission>\n";
            if (r.chance(1, 5)) x += "<gazebo><plugin name=\"p\"><mimic>z</mimic></plugin></gazebo>\n";
          }
          x += "</robot>"; std::vector<std::string> a{x}; a.insert(a.end(), mim.begin(), mim.end()); p.ops.push_back(Op("mimic", {0, -1, !clean && r.chance(1, 4) ? r.range(1, (long long)x.size() - 1) : -1}, {}, a)); break; }
      }
    }
  }
  std::map<std::string, Robot> robots;
  void read(const std::string& rn) {
    Robot& m = robots[rn]; std::string nm = rn; ds::RobotUtilShrPtr u = ds::getRobotUtil(nm); checks(); if (!u || !ds::isNameInRobotUtil(nm)) { fail("robot-lost", "robot %s is not known", rn.c_str()); return; }
    auto names = [&](const char* what, Names& N, std::function<long(const std::string&)> id, std::function<std::string(long)> name, const char* none) {
      static const char* all[] = {"hip", "knee", "ankle", "a", "zz", "neck", "rf", "lf", "rh", "lh", "aux", "rf2", "nobody"};
      for (auto n : all) { auto it = N.id.find(n); long g = id(n), w = it == N.id.end() ? -1 : it->second; if (g != w) fail(std::string(what) + "-id", "%s %s of %s has identifier %ld, %ld was set", what, n, rn.c_str(), g, w); }
      std::set<long> ids; for (long i = 0; i < 6; ++i) ids.insert(i); for (auto& g : N.given) ids.insert(g.first);
      for (long i : ids) { std::string g = name(i), l = N.last(i); auto h = N.holders(i); checks();
        if (h.empty() ? g != none : !l.empty() ? g != l : !h.count(g)) fail(std::string(what) + "-name", "identifier %ld of %s is called %s; its %s is %s", i, rn.c_str(), g.c_str(), what, l.empty() ? (h.empty() ? none : h.begin()->c_str()) : l.c_str()); }
    };
    names("joint", m.joint, [&](const std::string& n) { return (long)u->get_id_from_name(n); }, [&](long i) { return u->get_name_from_id(i); }, "Joint name not found");
    names("force", m.force, [&](const std::string& n) { return (long)u->m_force_util.get_id_from_name(n); }, [&](long i) { return u->m_force_util.cp_get_name_from_id(i); }, "Force name not found");
    auto& F = u->m_force_util; long got[] = {(long)F.get_force_id_left_foot(), (long)F.get_force_id_right_foot(), (long)F.get_force_id_left_hand(), (long)F.get_force_id_right_hand()}; const char* k[] = {"lf", "rf", "lh", "rh"};
    for (int j = 0; j < 4; ++j) if (got[j] != m.ids[k[j]]) fail("force-sensor", "the force sensor %s of %s has identifier %ld, %ld was set", k[j], rn.c_str(), got[j], m.ids[k[j]]);
    std::set<long> ids{0, 1, 2, 3, 4, 77}; for (auto& x : m.lim) ids.insert(x.first); for (auto& x : m.flim) ids.insert(x.first);
    for (long i : ids) {
      auto it = m.lim.find(i); double lo = it == m.lim.end() ? 0 : it->second.first, up = it == m.lim.end() ? 0 : it->second.second; const ds::JointLimits& L = u->get_joint_limits_from_id(i), C = u->cp_get_joint_limits_from_id(i); checks();
      if (L.lower != lo || L.upper != up || C.lower != lo || C.upper != up) fail("limits", "joint %ld of %s has limits %g %g, %g %g were set", i, rn.c_str(), L.lower, L.upper, lo, up);
      auto jt = m.flim.find(i); Vec fl = jt == m.flim.end() ? Vec::Zero(6).eval() : jt->second.first, fu = jt == m.flim.end() ? Vec::Zero(6).eval() : jt->second.second; const ds::ForceLimits& G = F.get_limits_from_id(i); ds::ForceLimits H = F.cp_get_limits_from_id(i);
      if (!near(G.lower, fl, 0) || !near(G.upper, fu, 0) || !near(H.lower, fl, 0) || !near(H.upper, fu, 0)) fail("force-limits", "the force limits %ld of %s are not those set", i, rn.c_str());
    }
    if (u->m_foot_util.m_Left_Foot_Frame_Name != m.lf || u->m_foot_util.m_Right_Foot_Frame_Name != m.rf || u->m_hand_util.m_Left_Hand_Frame_Name != m.lh || u->m_hand_util.m_Right_Hand_Frame_Name != m.rh) fail("frames", "the frames of %s are %s %s %s %s", rn.c_str(), u->m_foot_util.m_Left_Foot_Frame_Name.c_str(), u->m_foot_util.m_Right_Foot_Frame_Name.c_str(), u->m_hand_util.m_Left_Hand_Frame_Name.c_str(), u->m_hand_util.m_Right_Hand_Frame_Name.c_str());
    if (u->m_imu_joint_name != m.imu || u->m_urdf_filename != m.urdf) fail("names", "the IMU joint and model of %s are %s and %s, %s and %s were set", rn.c_str(), u->m_imu_joint_name.c_str(), u->m_urdf_filename.c_str(), m.imu.c_str(), m.urdf.c_str());
    if (!near(u->m_foot_util.m_Right_Foot_Sole_XYZ, m.sole, 0) || !near(u->m_foot_util.m_Right_Foot_Force_Sensor_XYZ, m.sensor, 0)) fail("foot", "the foot positions of %s are not those set", rn.c_str());
    bool same = (long)u->m_nbJoints == m.perm.size() && (long)u->m_urdf_to_sot.size() == m.perm.size() && near(u->m_dgv_urdf_to_sot, m.perm, 0); for (int i = 0; same && i < m.perm.size(); ++i) same = (double)u->m_urdf_to_sot[i] == m.perm[i];
    if (!same) fail("map", "the joint map of %s (%zu joints) is not the one set: %s", rn.c_str(), (size_t)u->m_nbJoints, str(m.perm).c_str());
    cover(mix(hashStr(rn), mix(m.joint.id.size() * 64 + m.force.id.size(), mix(m.perm.size() * 64 + m.par.size(), m.lim.size() * 8 + m.flim.size()))));
  }
  static Eigen::Matrix3d rpy(double r, double p, double y) { Eigen::Matrix3d X, Y, Z; X << 1, 0, 0, 0, cos(r), -sin(r), 0, sin(r), cos(r); Y << cos(p), 0, sin(p), 0, 1, 0, -sin(p), 0, cos(p); Z << cos(y), -sin(y), 0, sin(y), cos(y), 0, 0, 0, 1; return Z * Y * X; }
  static Eigen::Matrix3d rot(const Vec& q) { double x = q[3], y = q[4], z = q[5], w = q[6]; Eigen::Matrix3d R; R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y); return R; }
  // conversion `kind` of the robot, `off`: 1-3 which vector has a wrong size
  void convert(const std::string& rn, ds::RobotUtil& u, const Op& o) {
    Robot& m = robots[rn]; long n = m.perm.size(), kind = o.I(2), off = o.I(3), by = o.I(4); auto pick = [&](long k) { return o.D(k % 32); };
    auto make = [&](long size, long from, bool wrong) { Vec v(std::max(0L, size + (wrong ? by : 0))); for (int i = 0; i < v.size(); ++i) v[i] = pick(from + i) + 0.001 * i; return v; };
    auto quat = [&](Vec& q) { if (q.size() < 7) return; double r = pick(20), p = pick(21) / 2, y = pick(22); if (o.I(5) == 1) p = M_PI / 2; if (o.I(5) == 2) p = -M_PI / 2 + 0.0005 * (pick(23) > 0); if (o.I(5) == 3) { r = M_PI; y = -M_PI; } Eigen::Quaterniond Q(rpy(r, p, y)); Q.normalize(); if (pick(24) > 0) Q.coeffs() = -Q.coeffs(); q[3] = Q.x(); q[4] = Q.y(); q[5] = Q.z(); q[6] = Q.w(); };
    auto same = [&](const Vec& a, const Vec& b, const char* w, double tol = 0) { checks(); if (!near(a, b, tol)) fail(std::string("convert-") + w, "conversion %ld of %s gives %s, expected %s", kind, rn.c_str(), str(a).c_str(), str(b).c_str()); };
    auto rsame = [&](const Eigen::Matrix3d& A, const Eigen::Matrix3d& B) { checks(); double tol = std::fabs(std::fabs(A(2, 0)) - 1) < 1e-5 ? 3e-3 : 1e-9; if (!((A - B).cwiseAbs().maxCoeff() < tol)) fail("convert-base", "the conversion of a base orientation is wrong by %g", (A - B).cwiseAbs().maxCoeff()); };
    Vec a, b, out, q; bool ok, want = off == 0 && n > 0; long extra = kind < 2 ? 0 : 6;
    if (off) faultFired("bad_size"); if (n == 0) faultFired("not_mapped");
    if (kind < 2) { if (off == 3) want = n > 0; a = make(n, 0, off == 1); out = make(n, 7, off == 2); Vec before = out; ok = kind == 0 ? u.joints_urdf_to_sot(a, out) : u.joints_sot_to_urdf(a, out);
      if (ok != want) { fail("convert-refuse", "conversion %ld of %s with %ld joints and sizes %ld %ld returns %d", kind, rn.c_str(), n, (long)a.size(), (long)out.size(), ok); return; }
      if (!ok) { same(out, before, "refused"); return; }
      Vec w(n); for (int i = 0; i < n; ++i) if (kind == 0) w[(long)m.perm[i]] = a[i]; else w[i] = a[(long)m.perm[i]]; same(out, w, "joints");
      Vec back(n); ok = kind == 0 ? u.joints_sot_to_urdf(out, back) : u.joints_urdf_to_sot(out, back); if (!ok) fail("convert-refuse", "the way back is refused"); same(back, a, "inverse");
    } else if (kind < 4) { q = make(n + 7, 3, off == 1); quat(q); a = make(n + 6, 0, off == 2); out = make(n + 6, 9, off == 3); Vec before = out; ok = kind == 2 ? u.velocity_urdf_to_sot(q, a, out) : u.velocity_sot_to_urdf(q, a, out);
      if (ok != want) { fail("convert-refuse", "conversion %ld of %s with %ld joints and sizes %ld %ld %ld returns %d", kind, rn.c_str(), n, (long)q.size(), (long)a.size(), (long)out.size(), ok); return; }
      if (!ok) { same(out, before, "refused"); return; }
      Eigen::Matrix3d R = rot(q); if (kind == 3) R.transposeInPlace(); Vec w(n + 6); w.head<3>() = R * a.head<3>(); w.segment<3>(3) = R * a.segment<3>(3); for (int i = 0; i < n; ++i) if (kind == 2) w[6 + (long)m.perm[i]] = a[6 + i]; else w[6 + i] = a[6 + (long)m.perm[i]]; same(out, w, "velocity", 1e-9);
      Vec back(n + 6); ok = kind == 2 ? u.velocity_sot_to_urdf(q, out, back) : u.velocity_urdf_to_sot(q, out, back); if (!ok) fail("convert-refuse", "the way back is refused"); same(back, a, "inverse", 1e-9);
    } else { bool toSot = kind == 4; if (off == 3) want = n > 0; a = make(n + (toSot ? 7 : 6), 0, off == 1); if (toSot) quat(a); else if (a.size() > 5 && o.I(5)) a[4] = o.I(5) == 1 ? M_PI / 2 : -M_PI / 2 + 0.0005; out = make(n + (toSot ? 6 : 7), 9, off == 2); Vec before = out; ok = toSot ? u.config_urdf_to_sot(a, out) : u.config_sot_to_urdf(a, out);
      if (ok != want) { fail("convert-refuse", "conversion %ld of %s with %ld joints and sizes %ld %ld returns %d", kind, rn.c_str(), n, (long)a.size(), (long)out.size(), ok); return; }
      if (!ok) { same(out, before, "refused"); return; }
      const Vec &us = toSot ? a : out, &so = toSot ? out : a; same(out.head(3), a.head(3), "position"); rsame(rot(us), rpy(so[3], so[4], so[5])); Vec w(n); for (int i = 0; i < n; ++i) if (toSot) w[(long)m.perm[i]] = a[7 + i]; else w[i] = a[6 + (long)m.perm[i]]; same(out.tail(n), w, "joints");
      Vec back(n + (toSot ? 7 : 6)); ok = toSot ? u.config_sot_to_urdf(out, back) : u.config_urdf_to_sot(out, back); if (!ok) fail("convert-refuse", "the way back is refused"); same(back.head(3), a.head(3), "inverse"); same(back.tail(n), a.tail(n), "inverse"); rsame(toSot ? rot(a) : rpy(a[3], a[4], a[5]), toSot ? rot(back) : rpy(back[3], back[4], back[5]));
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; Server* srv[3]; std::string on[3]; bool simple[3] = {false, false, false};
    for (int i = 0; i < 3; ++i) srv[i] = new Server(fmt("ps%d", i));
    for (auto& o : p.ops) {
      int s = (int)o.I(0); Server& S = *srv[s]; bool inited = !on[s].empty(); Robot* m = inited ? &robots[on[s]] : NULL; std::string rn = on[s]; ds::RobotUtilShrPtr u; if (inited) u = ds::getRobotUtil(rn); ev("%s %d %s %lld", o.name.c_str(), s, rn.c_str(), o.I(2));
      // runs a command, once more without the fault when an allocation failed in it
      auto run = [&](std::function<void()> f) -> bool {
        if (o.I(1) < 0) return raises(f);
        bool oom = false, r = false; { AllocFault af((long)o.I(1)); try { f(); } catch (const std::bad_alloc&) { oom = true; } catch (...) { r = true; } oom = oom || allocFailAfter == -1; }
        if (oom) { faultFired("bad_alloc"); if (u && u->m_nbJoints) { Vec a = Vec::Zero(u->m_nbJoints), b = a; u->joints_urdf_to_sot(a, b); } r = raises(f); }
        return r; };
      auto need = [&](bool r, const char* w) { checks(); if (r) fail("refused", "%s was refused", w); };
      if (o.name == "create") { std::string n = o.S(0); bool has = robots.count(n) != 0; ds::RobotUtilShrPtr c = ds::createRobotUtil(n); checks(); if (!!c == has) fail("create", "robot %s, %s, was %s", n.c_str(), has ? "known" : "new", c ? "created" : "refused"); if (has) faultFired("name_taken"); robots[n]; }
      else if (o.name == "init") { bool bad = !(o.D(0) > 0); run([&] { cmd(S, "init", {Value(o.D(0)), Value(o.S(0)), Value(o.S(1))}); }); if (bad) faultFired("refused_init"); else { on[s] = o.S(1); robots[on[s]].urdf = o.S(0); } }
      else if (o.name == "simple") { bool bad = !(o.D(0) > 0), one = robots.size() == 1; bool r = run([&] { cmd(S, "init_simple", {Value(o.D(0))}); }); checks(); if (!bad && r == one) fail("init_simple", "init_simple with %zu robots %s", robots.size(), r ? "raised" : "did not raise"); if (bad || !one) faultFired("refused_init"); else { on[s] = robots.begin()->first; simple[s] = true; } }
      else if (o.name == "joint") { need(run([&] { cmd(S, "setNameToId", {Value(o.S(0)), Value((double)o.I(2))}); }), "a joint name"); if (m) m->joint.set(o.S(0), o.I(2)); }
      else if (o.name == "force") { need(run([&] { cmd(S, "setForceNameToForceId", {Value(o.S(0)), Value((double)o.I(2))}); }), "a force sensor name"); if (m) { m->force.set(o.S(0), o.I(2)); if (m->ids.count(o.S(0))) m->ids[o.S(0)] = o.I(2); } }
      else if (o.name == "limits") { need(run([&] { cmd(S, "setJointLimitsFromId", {Value((double)o.I(2)), Value(o.D(0)), Value(o.D(1))}); }), "joint limits"); if (m) m->lim[o.I(2)] = std::make_pair(o.D(0), o.D(1)); }
      else if (o.name == "flimits") { Vec l(6), h(6); for (int i = 0; i < 6; ++i) { l[i] = o.D(i); h[i] = o.D(6 + i); } need(run([&] { cmd(S, "setForceLimitsFromId", {Value((double)o.I(2)), Value(l), Value(h)}); }), "force limits"); if (m) m->flim[o.I(2)] = std::make_pair(l, h); }
      else if (o.name == "map") {
        Vec v(o.d.size()); for (size_t i = 0; i < o.d.size(); ++i) v[i] = o.d[i]; std::set<double> seen(o.d.begin(), o.d.end()); bool bad = seen.size() != o.d.size(); for (double x : o.d) if (!(x >= 0 && x < (double)o.d.size() && x == std::floor(x))) bad = true;
        bool frac = false; for (double x : o.d) if (!(std::fabs(x) < 1e6) || x != std::floor(x)) frac = true;
        if (o.I(2) == 0 && u && !frac) { std::vector<ds::Index> w; for (double x : o.d) w.push_back((ds::Index)x); run([&] { u->set_urdf_to_sot(w); }); } else run([&] { cmd(S, "setJointsUrdfToSot", {Value(v)}); });
        if (bad) faultFired("refused_map"); else if (m) m->perm = v; }
      else if (o.name == "sole" || o.name == "sensor") { Vec v(3); for (int i = 0; i < 3; ++i) v[i] = o.D(i); bool a = o.name == "sole"; need(run([&] { cmd(S, a ? "setRightFootSoleXYZ" : "setRightFootForceSensorXYZ", {Value(v)}); }), "a foot position"); if (m) (a ? m->sole : m->sensor) = v; }
      else if (o.name == "foot" || o.name == "hand") { bool F = o.name == "foot"; run([&] { cmd(S, F ? "setFootFrameName" : "setHandFrameName", {Value(o.S(0)), Value(o.S(1))}); }); if (o.S(0) != "Left" && o.S(0) != "Right") faultFired("unknown_name"); else if (m) (F ? (o.S(0) == "Left" ? m->lf : m->rf) : (o.S(0) == "Left" ? m->lh : m->rh)) = o.S(1); }
      else if (o.name == "imu") { need(run([&] { cmd(S, "setImuJointName", {Value(o.S(0))}); }), "the IMU joint"); if (m) m->imu = o.S(0); }
      else if (o.name == "display") { raises([&] { cmd(S, "displayRobotUtil"); }); }
      else if (o.name == "set") {
        static const char* c[] = {"setParameter", "setParameterDbl", "setParameterInt", "setParameterBool"}; int t = (int)o.I(2); Param q{t, o.S(1), o.D(0), (long)(int)o.I(3), (o.I(3) & 1) != 0};
        need(run([&] { cmd(S, c[t], {Value(o.S(0)), t == 0 ? Value(q.s) : t == 1 ? Value(q.d) : t == 2 ? Value((int)q.i) : Value(q.b)}); }), "a parameter"); if (m) m->par[o.S(0)] = q; }
      else if (o.name == "remap") { if (u) { u->create_id_to_name_map(); u->m_force_util.create_force_id_to_name_map(); } }
      else if (o.name == "range") { if (m) { unsigned id = 7777; auto it = m->joint.id.find(o.S(0)); bool k = S.jointId(o.S(0), id), in = S.inRange((unsigned)o.I(2), o.D(0)); checks(); if (k != (it != m->joint.id.end()) || (k && id != (unsigned)it->second)) fail("joint-id", "joint %s converts to %u", o.S(0).c_str(), id); auto L = m->lim.find((long)(unsigned)o.I(2)); double lo = L == m->lim.end() ? 0 : L->second.first, up = L == m->lim.end() ? 0 : L->second.second; if (in != (o.D(0) >= lo && o.D(0) <= up)) fail("range", "%g is %s limits %g %g", o.D(0), in ? "inside" : "outside", lo, up); } }
      else if (o.name == "mimic") {
        std::string x = o.S(0); if (o.I(2) >= 0) x = x.substr(0, o.I(2)); std::vector<std::string> g, w(o.s.begin() + 1, o.s.end()); bool r = raises([&] { ds::ExtractJointMimics e(x); g = e.get_mimic_joints(); }); checks();
        if (o.I(2) >= 0) { bool pro = x.find("<robot") == std::string::npos; faultFired("cut_model"); if (!r && !(pro && g.empty())) fail("mimic-cut", "a cut description gives %zu mimic joints", g.size()); }
        else if (r || g != w) fail("mimic", "%zu mimic joints are found (first %s), %zu are declared%s", g.size(), g.empty() ? "" : g[0].c_str(), w.size(), r ? "; raised" : ""); }
      else if (o.name == "convert") { if (u) convert(rn, *u, o); }
      if (!inited && o.name != "init" && o.name != "simple" && o.name != "create") faultFired("not_initialised");
      // everything reads back
      for (auto& x : robots) read(x.first);
      auto list = ds::getListOfRobots(); std::set<std::string> have(list->begin(), list->end()), want; for (auto& x : robots) want.insert(x.first); checks(); if (have != want || list->size() != want.size()) fail("robots", "%zu robots are listed, there are %zu", list->size(), want.size());
      std::string none = "nobody"; if (ds::isNameInRobotUtil(none) || ds::getRobotUtil(none)) fail("robots", "an unknown robot is found");
      for (int i = 0; i < 3; ++i) {
        if (simple[i]) { Vec g = cmd(*srv[i], "getJointsUrdfToSot").vectorValue(); checks(); if (!near(g, robots[on[i]].perm, 0)) fail("map-command", "the joint map of server %d is %s, the one of its robot %s is %s", i, str(g).c_str(), on[i].c_str(), str(robots[on[i]].perm).c_str()); }
        static const char* pn[] = {"/robot_description", "a", "/a", "a/b", "/specificities/feet/right/size/height", "/specificities/feet/right/size", "gain.p", "with space"}; std::string n = pn[(i + &o - &p.ops[0]) % 8];
        std::vector<std::string> ask{n}; if (o.name == "set") ask.push_back(o.S(0));
        for (auto& q : ask) { std::string a; bool r = raises([&] { a = cmd(*srv[i], "getParameter", {Value(q)}).stringValue(); }); checks();
          if (on[i].empty()) { if (!r) fail("parameter", "parameter %s of a server not initialised is %s", q.c_str(), a.c_str()); continue; }
          auto& P = robots[on[i]].par; auto it = P.find(q); bool inner = false; for (auto& x : P) if (x.first.size() > q.size() && x.first.compare(0, q.size() + 1, q + "/") == 0) inner = true;
          if (it == P.end()) { if (inner ? !a.empty() : !r) fail("parameter", "parameter %s of %s was never set and is %s", q.c_str(), on[i].c_str(), a.c_str()); continue; }
          Param& w = it->second; if (r) { fail("parameter", "parameter %s of %s is not found", q.c_str(), on[i].c_str()); continue; }
          if (w.type == 0 && a != w.s) fail("parameter", "parameter %s of %s is '%s', '%s' was set", q.c_str(), on[i].c_str(), a.c_str(), w.s.c_str());
          static const char* c[] = {"", "getParameterDbl", "getParameterInt", "getParameterBool"}; if (w.type) { Value v(0.0); if (raises([&] { v = cmd(*srv[i], c[w.type], {Value(q)}); })) { fail("parameter", "parameter %s of %s does not read back", q.c_str(), on[i].c_str()); continue; }
            if (w.type == 1 ? v.doubleValue() != w.d : w.type == 2 ? v.intValue() != w.i : v.boolValue() != w.b) fail("parameter", "parameter %s of %s does not read back as set", q.c_str(), on[i].c_str()); } } }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
