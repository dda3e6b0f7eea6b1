#include "lib_ops.h"

#include <cmath>
#include <cstring>
#include <random>

#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/t_curve_segment.hh"
#include "resim/curves/two_jet.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/safe_integer_utils.hh"
#include "resim/testing/random_matrix.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/random_duration.hh"
#include "resim/time/sample_interval.hh"
#include "resim/time/timestamp.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/liegroup_exp_diff.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/utils/match.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
#include "resim/utils/uuid.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace ops {
namespace {

using resim::UUID;
using resim::actor::state::RigidBodyState;
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
using resim::curves::TCurveSegment;
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
using resim::time::Duration;
using resim::time::Timestamp;
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame = resim::transforms::Frame<3>;
using Vec3 = resim::transforms::FramedVector<3>;
using Jet = TwoJetL<SE3>;

// ------------------------------------------------------------------ bytes
struct Out {
  std::string s;
  void raw(const void *p, size_t n) { s.append((const char *)p, n); }
  void operator()(double d) { raw(&d, 8); }
  void operator()(uint64_t v) { raw(&v, 8); }
  void operator()(int64_t v) { raw(&v, 8); }
  void operator()(int v) { (*this)((int64_t)v); }
  void operator()(bool v) { s += v ? '1' : '0'; }
  void operator()(const std::string &t) {
    (*this)((uint64_t)t.size());
    s += t;
  }
  template <typename D>
  void operator()(const Eigen::MatrixBase<D> &m) {
    for (int j = 0; j < m.cols(); j++)
      for (int i = 0; i < m.rows(); i++) (*this)((double)m(i, j));
  }
  void operator()(const UUID &u) { raw(u.id().data(), 16); }
  void operator()(const Frame &f) { (*this)(f.id()); }
  void operator()(const SO3 &g) {
    (*this)(g.rotation_matrix());
    (*this)(g.into());
    (*this)(g.from());
  }
  void operator()(const SE3 &g) {
    (*this)(g.rotation().rotation_matrix());
    (*this)(g.translation());
    (*this)(g.into());
    (*this)(g.from());
  }
  void operator()(const Vec3 &v) {
    (*this)(v.vector());
    (*this)(v.frame());
  }
  template <typename G>
  void operator()(const TwoJetL<G> &j) {
    (*this)(j.frame_from_ref());
    (*this)(j.d_frame_from_ref());
    (*this)(j.d2_frame_from_ref());
  }
  template <typename G>
  void operator()(const TwoJetR<G> &j) {
    (*this)(j.ref_from_frame());
    (*this)(j.d_ref_from_frame());
    (*this)(j.d2_ref_from_frame());
  }
  void operator()(const RigidBodyState<SE3> &r) { (*this)(r.ref_from_body_two_jet()); }
  void operator()(Timestamp t) { (*this)((int64_t)t.time_since_epoch().count()); }
  void operator()(Duration t) { (*this)((int64_t)t.count()); }
};

// A query's error is part of its answer.
template <typename F>
void guarded(Out &o, F f) {
  try {
    f(o);
  } catch (const std::exception &e) {
    o.s += "!";
    o(std::string(e.what()));
  }
}

// ------------------------------------------------------------------ values
Frame rand_frame(Rng &r) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; i += 8) {
    uint64_t v = r.u64();
    memcpy(a.data() + i, &v, 8);
  }
  a[0] |= 1;
  return Frame(UUID(a));
}
template <int N>
Eigen::Matrix<double, N, 1> rand_vec(Rng &r, double scale) {
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; i++) v[i] = r.sym(scale);
  return v;
}
template <typename G>
typename G::TangentVector rand_alg(Rng &r) {
  typename G::TangentVector v = rand_vec<G::DOF>(r, 1.5);
  if (G::DOF == 6)
    for (int i = 3; i < (int)G::DOF; i++) v[i] *= 40;
  // small angles take other branches
  if (r.below(8) == 0) v.template head<3>() *= 1e-5;
  return v;
}
template <typename G>
G rand_group(Rng &r, bool framed, const Frame &into, const Frame &from) {
  const typename G::TangentVector alg = rand_alg<G>(r);
  return framed ? G::exp(alg, into, from) : G::exp(alg);
}
template <typename G>
TwoJetL<G> rand_jetl(Rng &r, bool framed, const Frame &into, const Frame &from) {
  G g = rand_group<G>(r, framed, into, from);
  typename G::TangentVector d = rand_vec<G::DOF>(r, 1.0), d2 = rand_vec<G::DOF>(r, 1.0);
  return TwoJetL<G>(g, d, d2);
}
template <typename G>
TwoJetR<G> rand_jetr(Rng &r, bool framed, const Frame &into, const Frame &from) {
  G g = rand_group<G>(r, framed, into, from);
  typename G::TangentVector d = rand_vec<G::DOF>(r, 1.0), d2 = rand_vec<G::DOF>(r, 1.0);
  return TwoJetR<G>(g, d, d2);
}
template <typename G>
TCurve<G> rand_tcurve(Rng &r, bool framed, const Frame &into, const Frame &from, int n, double t0) {
  TCurve<G> c;
  double t = t0;
  for (int i = 0; i < n; i++) {
    c.append({t, rand_jetl<G>(r, framed, into, from)});
    t += 0.25 + r.unit();
  }
  return c;
}
DCurve<SE3> rand_dcurve(Rng &r, bool framed, const Frame &into, const Frame &from, int n) {
  DCurve<SE3> c;
  for (int i = 0; i < n; i++) c.append(rand_group<SE3>(r, framed, into, from));
  return c;
}
Trajectory rand_traj(Rng &r, const Frame &ref, const Frame &body, int n) {
  Trajectory t;
  int64_t at = 1700000000000000000ll + (int64_t)(r.u64() % 1000000000ull);
  if (r.below(4) == 3) at = (int64_t)(r.u64() % 10000000000ull) - 5000000000ll;  // around the epoch
  for (int i = 0; i < n; i++) {
    t.append({Timestamp(Duration(at)), RigidBodyState<SE3>(rand_jetr<SE3>(r, true, ref, body))});
    at += 200000000 + (int64_t)(r.u64() % 1500000000ull);
  }
  return t;
}
Eigen::MatrixXd rand_cov(Rng &r, int n) {
  Eigen::MatrixXd a(n, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) a(i, j) = r.sym(1.0);
  Eigen::MatrixXd c = a * a.transpose();
  c = 0.5 * (c + c.transpose()).eval();
  for (int i = 0; i < n; i++) c(i, i) += 0.1;
  return c;
}
using Text = std::string;
using EventSchedule = resim::time::EventSchedule<Text>;

template <typename G>
void all_of(Out &o, const TCurve<G> &c, int queries) {
  o((uint64_t)c.control_pts().size());
  for (const auto &p : c.control_pts()) {
    o(p.time);
    o(p.point);
  }
  o((uint64_t)c.segments().size());
  for (const auto &s : c.segments()) {
    o(s.orig_time);
    o(s.dest_time);
    o(s.curve.orig());
    o(s.curve.dest());
  }
  guarded(o, [&](Out &q) { q(c.is_framed()); });
  guarded(o, [&](Out &q) { q(c.reference_frame()); });
  guarded(o, [&](Out &q) { q(c.point_frame()); });
  guarded(o, [&](Out &q) { q(c.start_time()); });
  guarded(o, [&](Out &q) { q(c.end_time()); });
  if (c.control_pts().empty()) return;
  double a = c.control_pts().front().time, b = c.control_pts().back().time;
  for (int i = 0; i <= queries; i++)
    guarded(o, [&](Out &q) { q(c.point_at(a + (b - a) * i / queries)); });
  guarded(o, [&](Out &q) { q(c.point_at(b + 1)); });
}
void all_of(Out &o, const DCurve<SE3> &c, int queries) {
  o((uint64_t)c.control_pts().size());
  for (const auto &p : c.control_pts()) {
    o(p.arc_length);
    o(*p.ref_from_control);
  }
  o((uint64_t)c.segments().size());
  for (const auto &s : c.segments()) {
    o(s.orig_arc_length);
    o(s.dest_arc_length);
    o(*s.ref_from_orig);
    o(*s.ref_from_dest);
    o(s.orig_from_dest);
  }
  guarded(o, [&](Out &q) { q(c.is_framed()); });
  guarded(o, [&](Out &q) { q(c.reference_frame()); });
  guarded(o, [&](Out &q) { q(c.point_frame()); });
  double len = c.curve_length();
  o(len);
  for (int i = 0; i <= queries; i++) guarded(o, [&](Out &q) { q(c.point_at(len * i / queries)); });
  guarded(o, [&](Out &q) { q(c.point_at(len + 1)); });
}
void all_of(Out &o, const Trajectory &t, int queries) {
  o(t.start_time());
  guarded(o, [&](Out &q) { q(t.reference_frame()); });
  guarded(o, [&](Out &q) { q(t.body_frame()); });
  all_of(o, t.curve(), 1);
  if (t.curve().control_pts().empty()) return;
  o(t.end_time());
  o(t.time_duration());
  for (int i = 0; i <= queries; i++) {
    Duration d = t.time_duration() / queries * i;
    guarded(o, [&](Out &q) { q(t.point_at(t.start_time() + d)); });
    guarded(o, [&](Out &q) { q(t.point_at(d)); });
  }
}
void all_of(Out &o, const EventSchedule &e) {
  EventSchedule c = e;
  o((uint64_t)e.size());
  while (c.size()) {
    o(c.top_event().time);
    o(c.top_event().payload);
    c.pop_event();
  }
}
}  // namespace

// ================================================================== bank
struct Bank {
  Frame a, b, c;
  SE3 ab, bc, plain;
  SO3 rab, rbc, rplain;
  Vec3 v;
  TwoJetL<SE3> jl;
  TwoJetR<SE3> jr;
  TwoJetL<SO3> kl;
  TwoJetR<SO3> kr;
  std::unique_ptr<TCurveSegment<SE3>> seg;
  TCurve<SE3> t;
  TCurve<SO3> ts;
  std::unique_ptr<TCurveSegment<SO3>> segs;
  TwoJetL<SE3> jl2;
  TwoJetR<SE3> jr2;
  TwoJetL<SO3> kl2;
  TwoJetR<SO3> kr2;
  DCurve<SE3> d;
  RigidBodyState<SE3> r1, r2;
  Trajectory traj;
  EventSchedule es;
  resim::Status ok, err;
  std::unique_ptr<resim::StatusValue<SE3>> sv, sv_bad;
  UUID id;
  std::unique_ptr<resim::math::Gaussian> gauss;
  resim::visualization::ViewPrimitive prim;
  resim::curves::proto::TCurve_SE3 m_t;
  resim::curves::proto::DCurve_SE3 m_d;
  resim::actor::state::proto::Trajectory m_traj;
  resim::visualization::proto::ViewUpdate m_view;
  resim::transforms::proto::SE3 m_se3;
  resim::transforms::proto::SO3 m_so3;
  resim::transforms::proto::Frame_3 m_frame;
  resim::transforms::proto::FramedVector_3 m_v;
  resim::proto::UUID m_id;
  resim::curves::proto::TCurve_SO3 m_ts;
  resim::curves::proto::TwoJetL_SE3 m_jl;
  resim::curves::proto::TwoJetR_SE3 m_jr;
  resim::curves::proto::TwoJetL_SO3 m_kl;
  resim::curves::proto::TwoJetR_SO3 m_kr;
};

std::shared_ptr<const Bank> make_bank(uint64_t key) {
  Rng r(key);
  auto bp = std::make_shared<Bank>();
  Bank &k = *bp;
  k.a = rand_frame(r);
  k.b = rand_frame(r);
  k.c = rand_frame(r);
  k.ab = rand_group<SE3>(r, true, k.a, k.b);
  k.bc = rand_group<SE3>(r, true, k.b, k.c);
  k.plain = rand_group<SE3>(r, false, k.a, k.b);
  k.rab = rand_group<SO3>(r, true, k.a, k.b);
  k.rbc = rand_group<SO3>(r, true, k.b, k.c);
  k.rplain = rand_group<SO3>(r, false, k.a, k.b);
  k.v = Vec3(rand_vec<3>(r, 10), k.b);
  bool framed = r.below(2);
  k.jl = rand_jetl<SE3>(r, framed, k.a, k.b);
  k.jr = rand_jetr<SE3>(r, framed, k.a, k.b);
  k.kl = rand_jetl<SO3>(r, framed, k.a, k.b);
  k.kr = rand_jetr<SO3>(r, framed, k.a, k.b);
  k.seg = std::make_unique<TCurveSegment<SE3>>(rand_jetl<SE3>(r, framed, k.a, k.b),
                                               rand_jetl<SE3>(r, framed, k.a, k.b));
  k.t = rand_tcurve<SE3>(r, framed, k.a, k.b, 2 + (int)r.below(6), r.sym(5));
  k.ts = rand_tcurve<SO3>(r, framed, k.a, k.b, 2 + (int)r.below(6), r.sym(5));
  k.segs = std::make_unique<TCurveSegment<SO3>>(rand_jetl<SO3>(r, framed, k.a, k.b),
                                                rand_jetl<SO3>(r, framed, k.a, k.b));
  k.jl2 = rand_jetl<SE3>(r, framed, k.b, k.c);
  k.jr2 = rand_jetr<SE3>(r, framed, k.b, k.c);
  k.kl2 = rand_jetl<SO3>(r, framed, k.b, k.c);
  k.kr2 = rand_jetr<SO3>(r, framed, k.b, k.c);
  k.d = rand_dcurve(r, framed, k.a, k.b, 2 + (int)r.below(6));
  k.r1 = RigidBodyState<SE3>(rand_jetr<SE3>(r, true, k.a, k.b));
  k.r2 = RigidBodyState<SE3>(rand_jetr<SE3>(r, true, k.b, k.c));
  k.traj = rand_traj(r, k.a, k.b, 2 + (int)r.below(5));
  for (int i = 0, n = 1 + (int)r.below(12); i < n; i++)
    k.es.schedule_event(Timestamp(Duration((int64_t)r.below(4))), "event " + std::to_string(i));
  k.err = resim::Status::make_at_line("some/file.cc", 12, "it did not work");
  k.sv = std::make_unique<resim::StatusValue<SE3>>(SE3(k.ab));
  k.sv_bad = std::make_unique<resim::StatusValue<SE3>>(k.err);
  k.id = k.c.id();
  int dim = 2 + (int)r.below(2);
  Eigen::VectorXd mu(dim);
  for (int i = 0; i < dim; i++) mu[i] = r.sym(3);
  k.gauss = std::make_unique<resim::math::Gaussian>(mu, rand_cov(r, dim));
  k.prim.id = k.b.id();
  switch (r.below(4)) {
    case 0:
      k.prim.payload.emplace<TCurve<SE3>>(k.t);
      break;
    case 1:
      k.prim.payload.emplace<DCurve<SE3>>(k.d);
      break;
    case 2:
      k.prim.payload.emplace<Trajectory>(k.traj);
      break;
    default:
      k.prim.payload.emplace<SE3>(k.ab);
  }
  if (r.below(2)) k.prim.user_defined_name = "a name";
  k.prim.file_name = "f.cc";
  k.prim.line_number = 3;
  using resim::actor::state::proto::pack;
  using resim::curves::proto::pack;
  using resim::proto::pack;
  using resim::transforms::proto::pack;
  using resim::visualization::proto::pack;
  pack(k.rab, &k.m_so3);
  pack(k.a, &k.m_frame);
  pack(k.v, &k.m_v);
  pack(k.id, &k.m_id);
  pack(k.ts, &k.m_ts);
  pack(k.jl, &k.m_jl);
  pack(k.jr, &k.m_jr);
  pack(k.kl, &k.m_kl);
  pack(k.kr, &k.m_kr);
  pack(k.t, &k.m_t);
  pack(k.d, &k.m_d);
  pack(k.traj, &k.m_traj);
  pack(k.ab, &k.m_se3);
  resim::visualization::ViewUpdate u;
  u.primitives.push_back(k.prim);
  pack(u, &k.m_view);
  return bp;
}

namespace {
using Q = void (*)(Out &, const Bank &, double);
struct Named {
  const char *name;
  Q f;
};
double lerp(double a, double b, double x) { return a + (b - a) * x; }
using resim::actor::state::proto::pack;
using resim::actor::state::proto::unpack;
using resim::curves::proto::pack;
using resim::curves::proto::unpack;
using resim::proto::pack;
using resim::proto::unpack;
using resim::transforms::proto::pack;
using resim::transforms::proto::unpack;
using resim::visualization::proto::pack;
using resim::visualization::proto::unpack;
template <typename M, typename T>
std::string packed(const T &t) {
  M m;
  pack(t, &m);
  std::string s;
  m.SerializeToString(&s);
  return s;
}

const Named QUERIES[] = {
    {"se3.log", [](Out &o, const Bank &k, double) { o(k.ab.log()); }},
    {"se3.inverse", [](Out &o, const Bank &k, double) { o(k.ab.inverse()); }},
    {"se3.compose", [](Out &o, const Bank &k, double) { o(k.ab * k.bc); }},
    {"se3.compose-mismatch", [](Out &o, const Bank &k, double) { o(k.ab * k.ab); }},
    {"se3.interp", [](Out &o, const Bank &k, double x) { o(k.plain.interp(x)); }},
    {"se3.interp-framed", [](Out &o, const Bank &k, double x) { o(k.ab.interp(x, k.c)); }},
    {"se3.adjoint",
     [](Out &o, const Bank &k, double x) {
       o(k.ab.adjoint());
       SE3::TangentVector w = SE3::TangentVector::Constant(x);
       o(k.ab.adjoint_times(w));
     }},
    {"se3.act",
     [](Out &o, const Bank &k, double x) {
       o(k.ab * Eigen::Vector3d(x, 1, 2));
       o(k.ab.rotate(Eigen::Vector3d(x, 1, 2)));
       o(k.ab.rotate(k.v));
     }},
    {"se3.arc",
     [](Out &o, const Bank &k, double) {
       o(k.ab.arc_length());
       o(resim::transforms::se3_distance(k.plain, k.plain.inverse()));
       o(resim::transforms::se3_inverse_distance(k.plain, k.plain.inverse()));
     }},
    {"se3.approx",
     [](Out &o, const Bank &k, double) {
       o(k.ab.is_approx(k.bc));
       o(k.ab.is_approx_transform(k.ab));
       o(k.ab.is_framed());
     }},
    {"so3.log", [](Out &o, const Bank &k, double) { o(k.rab.log()); }},
    {"so3.compose", [](Out &o, const Bank &k, double) { o(k.rab * k.rbc); }},
    {"so3.interp", [](Out &o, const Bank &k, double x) { o(k.rplain.interp(x)); }},
    {"so3.act",
     [](Out &o, const Bank &k, double x) {
       o(k.rab * Eigen::Vector3d(x, 1, 2));
       o(k.rab.rotate(k.v));
       o(k.rab.adjoint());
       o(k.rab.inverse());
     }},
    {"so3.quaternion", [](Out &o, const Bank &k, double) { o(k.rab.quaternion().coeffs()); }},
    {"so3.exp_diff",
     [](Out &o, const Bank &k, double x) { o(SO3::exp_diff(k.rab.log() * (x < 0.2 ? x * 1e-3 : x))); }},
    {"exp_diff.coeffs",
     [](Out &o, const Bank &, double x) {
       auto c = resim::transforms::derivative_of_exp_so3(x < 0.3 ? x * 1e-5 : x * 3);
       o(c.a);
       o(c.b);
       o(c.c);
     }},
    {"vector.sum", [](Out &o, const Bank &k, double x) { o((k.v + k.v) * x); }},
    {"vector.equal", [](Out &o, const Bank &k, double) { o(k.v == k.v); }},
    {"jetl.inverse", [](Out &o, const Bank &k, double) { o(k.jl.inverse()); }},
    {"jetl.right", [](Out &o, const Bank &k, double) { o(k.jl.right_two_jet()); }},
    {"jetl.product", [](Out &o, const Bank &k, double) { o(k.jl * k.jl.inverse()); }},
    {"jetr.left", [](Out &o, const Bank &k, double) { o(k.jr.left_two_jet()); }},
    {"jetr.product", [](Out &o, const Bank &k, double) { o(k.jr * k.jr.inverse()); }},
    {"so3 jets",
     [](Out &o, const Bank &k, double) {
       o(k.kl.right_two_jet());
       o(k.kr.left_two_jet());
       o(k.kl.inverse());
       o(k.kr.inverse());
     }},
    {"segment.point_at", [](Out &o, const Bank &k, double x) { o(k.seg->point_at(x)); }},
    {"segment.point_at-bad", [](Out &o, const Bank &k, double x) { o(k.seg->point_at(1.5 + x)); }},
    {"segment.frames",
     [](Out &o, const Bank &k, double) {
       o(k.seg->is_framed());
       o(k.seg->reference_frame());
       o(k.seg->point_frame());
     }},
    {"tcurve.point_at",
     [](Out &o, const Bank &k, double x) { o(k.t.point_at(lerp(k.t.start_time(), k.t.end_time(), x))); }},
    {"tcurve.sweep",
     [](Out &o, const Bank &k, double x) {
       for (int i = 0; i < 4; i++)
         o(k.t.point_at(lerp(k.t.start_time(), k.t.end_time(), x * (i + 1) / 4)));
     }},
    {"tcurve.outside", [](Out &o, const Bank &k, double x) { o(k.t.point_at(k.t.end_time() + 0.1 + x)); }},
    {"tcurve.all", [](Out &o, const Bank &k, double) { all_of(o, k.t, 3); }},
    {"tcurve.copy",
     [](Out &o, const Bank &k, double x) {
       TCurve<SE3> c(k.t);
       Rng r((uint64_t)(x * 1000));
       c.append({c.end_time() + 1, rand_jetl<SE3>(r, c.is_framed(), c.point_frame(), c.reference_frame())});
       all_of(o, c, 2);
       all_of(o, k.t, 2);
     }},
    {"tcurve-so3.point_at",
     [](Out &o, const Bank &k, double x) { o(k.ts.point_at(lerp(k.ts.start_time(), k.ts.end_time(), x))); }},
    {"tcurve-so3.all", [](Out &o, const Bank &k, double) { all_of(o, k.ts, 3); }},
    {"dcurve.point_at", [](Out &o, const Bank &k, double x) { o(k.d.point_at(x * k.d.curve_length())); }},
    {"dcurve.sweep",
     [](Out &o, const Bank &k, double x) {
       for (int i = 0; i < 4; i++) o(k.d.point_at(x * k.d.curve_length() * (4 - i) / 4));
     }},
    {"dcurve.outside", [](Out &o, const Bank &k, double x) { o(k.d.point_at(k.d.curve_length() + 0.1 + x)); }},
    {"dcurve.all", [](Out &o, const Bank &k, double) { all_of(o, k.d, 3); }},
    {"dcurve.copy",
     [](Out &o, const Bank &k, double x) {
       DCurve<SE3> c(k.d);
       Rng r((uint64_t)(x * 1000));
       c.append(rand_group<SE3>(r, c.is_framed(), c.reference_frame(), c.point_frame()));
       all_of(o, c, 2);
       all_of(o, k.d, 2);
     }},
    {"state.product", [](Out &o, const Bank &k, double) { o(k.r1 * k.r2); }},
    {"state.inverse_times", [](Out &o, const Bank &k, double) { o(k.r1.inverse_times(k.r1)); }},
    {"state.derivatives",
     [](Out &o, const Bank &k, double) {
       auto d = k.r1.body_derivatives();
       o(d.velocity.linear_mps);
       o(d.velocity.angular_radps);
       o(d.acceleration.linear_mpss);
       o(d.acceleration.angular_radpss);
       o(k.r1.body_linear_velocity_mps());
       o(k.r1.body_angular_velocity_radps());
       o(k.r1.body_linear_acceleration_mpss());
       o(k.r1.body_angular_acceleration_radpss());
       o(k.r1.ref_from_body());
     }},
    {"trajectory.at-time",
     [](Out &o, const Bank &k, double x) {
       o(k.traj.point_at(k.traj.start_time() + Duration((int64_t)((double)k.traj.time_duration().count() * x))));
     }},
    {"trajectory.at-duration",
     [](Out &o, const Bank &k, double x) {
       o(k.traj.point_at(Duration((int64_t)((double)k.traj.time_duration().count() * x))));
     }},
    {"trajectory.outside",
     [](Out &o, const Bank &k, double) { o(k.traj.point_at(k.traj.end_time() + Duration(1000000000))); }},
    {"trajectory.all", [](Out &o, const Bank &k, double) { all_of(o, k.traj, 3); }},
    {"schedule.top",
     [](Out &o, const Bank &k, double) {
       o((uint64_t)k.es.size());
       o(k.es.top_event().time);
       o(k.es.top_event().payload);
     }},
    {"schedule.copy", [](Out &o, const Bank &k, double) { all_of(o, k.es); }},
    {"status",
     [](Out &o, const Bank &k, double) {
       o(k.ok.ok());
       o(k.err.ok());
       o(k.ok.what());
       o(k.err.what());
     }},
    {"status.check", [](Out &, const Bank &k, double) { CHECK_STATUS_OK(k.err); }},
    {"status value",
     [](Out &o, const Bank &k, double) {
       o(k.sv->ok());
       o(k.sv->value());
       o(k.sv_bad->status().what());
     }},
    {"status value.bad", [](Out &o, const Bank &k, double) { o(k.sv_bad->value()); }},
    {"assert", [](Out &, const Bank &k, double x) { REASSERT(k.ok.ok() and x < 0, "must be negative"); }},
    {"uuid",
     [](Out &o, const Bank &k, double) {
       o(k.id.to_string());
       o(UUID(k.id.to_string()) == k.id);
       o(k.id.is_null());
       o((uint64_t)std::hash<UUID>()(k.id));
     }},
    {"gaussian.parameters",
     [](Out &o, const Bank &k, double) {
       o((uint64_t)k.gauss->dimensionality());
       o(k.gauss->mu());
       o(k.gauss->cov());
       o(k.gauss->eigenvalues());
       o(k.gauss->eigenvectors());
     }},
    {"gaussian.copy",
     [](Out &o, const Bank &k, double x) {
       resim::math::Gaussian g(*k.gauss);
       o(g.samples(1 + (unsigned)(x * 5)));
       o(g.sample());
     }},
    {"sample_interval",
     [](Out &o, const Bank &, double x) {
       resim::time::sample_interval(0.0, 1.0 + x, 0.3, [&](double t) { o(t); });
       o(resim::time::num_samples(0.0, 1.0 + x, 0.3));
     }},
    {"pack.se3", [](Out &o, const Bank &k, double) { o(packed<resim::transforms::proto::SE3>(k.ab)); }},
    {"pack.tcurve", [](Out &o, const Bank &k, double) { o(packed<resim::curves::proto::TCurve_SE3>(k.t)); }},
    {"pack.dcurve", [](Out &o, const Bank &k, double) { o(packed<resim::curves::proto::DCurve_SE3>(k.d)); }},
    {"pack.trajectory",
     [](Out &o, const Bank &k, double) { o(packed<resim::actor::state::proto::Trajectory>(k.traj)); }},
    {"pack.view",
     [](Out &o, const Bank &k, double) { o(packed<resim::visualization::proto::ViewPrimitive>(k.prim)); }},
    {"unpack.se3", [](Out &o, const Bank &k, double) { o(unpack(k.m_se3)); }},
    {"unpack.tcurve", [](Out &o, const Bank &k, double) { all_of(o, unpack(k.m_t), 2); }},
    {"unpack.dcurve", [](Out &o, const Bank &k, double) { all_of(o, unpack(k.m_d), 2); }},
    {"unpack.trajectory", [](Out &o, const Bank &k, double) { all_of(o, unpack(k.m_traj), 2); }},
    {"unpack.view",
     [](Out &o, const Bank &k, double) {
       auto u = unpack(k.m_view);
       o((uint64_t)u.primitives.size());
       o(u.primitives.at(0).id);
       o((uint64_t)u.primitives.at(0).payload.index());
       o(packed<resim::visualization::proto::ViewPrimitive>(u.primitives.at(0)));
     }},
    {"se3.algebra",
     [](Out &o, const Bank &k, double x) {
       const SE3::TangentVector u = k.plain.log() * x, w = k.ab.log();
       o(SE3::adjoint(u));
       o(SE3::adjoint_times(u, w));
       o(SE3::tangent_vector_from_parts(SE3::tangent_vector_rotation_part(u), SE3::tangent_vector_translation_part(w)));
     }},
    {"se3.exp",
     [](Out &o, const Bank &k, double x) {
       const SE3::TangentVector u = k.plain.log() * x;
       o(SE3::exp(u));
       o(SE3::exp(u, k.c, k.a));
       o(SE3::identity());
       o(SE3::identity(k.c, k.b));
     }},
    {"se3.make",
     [](Out &o, const Bank &k, double x) {
       const Eigen::Vector3d p(x, 2, 3);
       o(SE3(k.rplain));
       o(SE3(k.rplain, k.b, k.c));
       o(SE3(p));
       o(SE3(p, k.a, k.c));
       o(SE3(k.rplain, p));
       o(SE3(k.rplain, p, k.c, k.a));
     }},
    {"so3.algebra",
     [](Out &o, const Bank &k, double x) {
       const SO3::TangentVector u = k.rplain.log() * x, w = k.rab.log();
       o(SO3::adjoint(u));
       o(SO3::adjoint_times(u, w));
       o(k.rab.adjoint_times(u));
     }},
    {"so3.exp",
     [](Out &o, const Bank &k, double x) {
       const SO3::TangentVector u = k.rplain.log() * x;
       o(SO3::exp(u));
       o(SO3::exp(u, k.c, k.a));
       o(SO3::identity());
       o(SO3::identity(k.c, k.b));
     }},
    {"so3.make",
     [](Out &o, const Bank &k, double x) {
       o(SO3(x, Eigen::Vector3d(0, 0, 1)));
       o(SO3(x, Eigen::Vector3d(0, 1, 0), k.a, k.c));
       o(SO3(Eigen::AngleAxisd(x, Eigen::Vector3d(1, 0, 0)), k.b, k.c));
       o(SO3(k.rab.quaternion(), k.a, k.c));
       const Eigen::Matrix3d m = k.rab.rotation_matrix();
       o(SO3(m, k.b, k.c));
     }},
    {"so3.interp-framed", [](Out &o, const Bank &k, double x) { o(k.rab.interp(x, k.c)); }},
    {"so3.compose-mismatch", [](Out &o, const Bank &k, double) { o(k.rab * k.rab); }},
    {"so3.approx",
     [](Out &o, const Bank &k, double) {
       o(k.rab.is_approx(k.rbc));
       o(k.rab.is_approx(k.rab));
       o(k.rab.is_approx_transform(k.rplain));
       o(k.rab.is_framed());
       o(k.rplain.is_framed());
     }},
    {"vector.products",
     [](Out &o, const Bank &k, double x) {
       o(x * k.v);
       o(k.v + Eigen::Vector3d(x, x, 1));
       o(k.v.isApprox(k.v * (1 + 1e-14)));
       o(k.v.isApprox(Vec3(k.v.vector(), k.c)));
     }},
    {"vector.mismatch", [](Out &o, const Bank &k, double) { o(k.v + Vec3(k.v.vector(), k.c)); }},
    {"frames",
     [](Out &o, const Bank &k, double) {
       o(k.a == k.b);
       o(k.a != k.b);
       o(k.a.is_null());
       o(Frame::null_frame().is_null());
       o(k.ab.verify_frames(k.a, k.b));
       o(k.rab.verify_frames(k.b, k.a));
     }},
    {"jets.product",
     [](Out &o, const Bank &k, double) {
       o(k.jl * k.jl2);
       o(k.jr * k.jr2);
       o(k.kl * k.kl2);
       o(k.kr * k.kr2);
     }},
    {"jets.approx",
     [](Out &o, const Bank &k, double) {
       o(k.jl.is_approx(k.jl));
       o(k.jl.is_approx(k.jl2));
       o(k.jr.is_approx(k.jr2));
       o(k.kl.is_approx(k.kl));
       o(k.kr.is_approx(k.kr));
       o(k.kr.is_approx(k.kr2));
     }},
    {"jets.identity",
     [](Out &o, const Bank &k, double) {
       o(TwoJetL<SE3>::identity());
       o(TwoJetL<SE3>::identity(k.a, k.c));
       o(TwoJetR<SE3>::identity(k.c, k.b));
       o(TwoJetL<SO3>::identity(k.b, k.c));
       o(TwoJetR<SO3>::identity());
     }},
    {"jets.set",
     [](Out &o, const Bank &k, double x) {
       auto j = k.jl;
       j.set_frame_from_ref(k.plain);
       j.set_d_frame_from_ref(k.jl2.d_frame_from_ref() * x);
       j.set_d2_frame_from_ref(k.jl2.d2_frame_from_ref() * x);
       o(j);
       auto i = k.kr;
       i.set_ref_from_frame(k.rplain);
       i.set_d_ref_from_frame(k.kr2.d_ref_from_frame() * x);
       i.set_d2_ref_from_frame(k.kr2.d2_ref_from_frame() * x);
       o(i);
       o(k.jl);
       o(k.kr);
     }},
    {"segment-so3.point_at", [](Out &o, const Bank &k, double x) { o(k.segs->point_at(x)); }},
    {"segment-so3.frames",
     [](Out &o, const Bank &k, double) {
       o(k.segs->is_framed());
       o(k.segs->reference_frame());
       o(k.segs->point_frame());
     }},
    {"tcurve-so3.copy",
     [](Out &o, const Bank &k, double x) {
       TCurve<SO3> c(k.ts);
       Rng r((uint64_t)(x * 1000));
       c.append({c.end_time() + 1, rand_jetl<SO3>(r, c.is_framed(), c.point_frame(), c.reference_frame())});
       all_of(o, c, 2);
       all_of(o, k.ts, 2);
     }},
    {"tcurve-so3.outside", [](Out &o, const Bank &k, double x) { o(k.ts.point_at(k.ts.start_time() - 0.1 - x)); }},
    {"state.set",
     [](Out &o, const Bank &k, double x) {
       auto s = k.r1;
       s.set_ref_from_body(k.ab);
       s.set_body_linear_velocity_mps(Eigen::Vector3d(x, 1, 2));
       s.set_body_angular_velocity_radps(Eigen::Vector3d(3, x, 2));
       s.set_body_linear_acceleration_mpss(Eigen::Vector3d(3, 1, x));
       s.set_body_angular_acceleration_radpss(Eigen::Vector3d(-x, 1, x));
       o(s);
       o(k.r1);
       o(RigidBodyState<SE3>::identity(k.a, k.c));
       o(RigidBodyState<SE3>(k.ab));
       o(RigidBodyState<SE3>(k.ab, k.r2.body_derivatives()));
     }},
    {"trajectory.copy",
     [](Out &o, const Bank &k, double x) {
       Trajectory c(k.traj);
       Rng r((uint64_t)(x * 1000));
       c.append({c.end_time() + Duration(1000000), RigidBodyState<SE3>(rand_jetr<SE3>(r, true, k.a, k.b))});
       all_of(o, c, 2);
       all_of(o, k.traj, 2);
     }},
    {"integers",
     [](Out &o, const Bank &k, double x) {
       int64_t a = (int64_t)k.id.id()[0] * 1000003, b = (int64_t)(x * 1e6);
       o(resim::math::safe_sum(a, b));
       o(resim::math::safe_difference(a, b));
       o(resim::math::safe_abs(-a));
       o(resim::math::safe_sum(INT64_MAX - a, a + 1 + b));
     }},
    {"sample times",
     [](Out &o, const Bank &, double x) {
       Timestamp a{Duration(5)}, b{Duration(1000 + (int64_t)(x * 1000))};
       resim::time::sample_interval(a, b, Duration(300), [&](Timestamp t) { o(t); });
       o(resim::time::num_samples(a, b, Duration(300)));
     }},
    {"pack.values",
     [](Out &o, const Bank &k, double) {
       o(packed<resim::proto::UUID>(k.id));
       o(packed<resim::transforms::proto::Frame_3>(k.a));
       o(packed<resim::transforms::proto::FramedVector_3>(k.v));
       o(packed<resim::transforms::proto::SO3>(k.rab));
     }},
    {"pack.jets",
     [](Out &o, const Bank &k, double) {
       o(packed<resim::curves::proto::TwoJetL_SE3>(k.jl));
       o(packed<resim::curves::proto::TwoJetR_SE3>(k.jr));
       o(packed<resim::curves::proto::TwoJetL_SO3>(k.kl));
       o(packed<resim::curves::proto::TwoJetR_SO3>(k.kr));
     }},
    {"pack.tcurve-so3", [](Out &o, const Bank &k, double) { o(packed<resim::curves::proto::TCurve_SO3>(k.ts)); }},
    {"unpack.values",
     [](Out &o, const Bank &k, double) {
       o(unpack(k.m_id));
       o(unpack(k.m_frame));
       o(unpack(k.m_v));
       o(unpack(k.m_so3));
     }},
    {"unpack.jets",
     [](Out &o, const Bank &k, double) {
       o(unpack(k.m_jl));
       o(unpack(k.m_jr));
       o(unpack(k.m_kl));
       o(unpack(k.m_kr));
     }},
    {"unpack.tcurve-so3", [](Out &o, const Bank &k, double) { all_of(o, unpack(k.m_ts), 2); }},
};
}  // namespace

int query_count() { return (int)(sizeof QUERIES / sizeof *QUERIES); }
const char *query_name(int q) { return QUERIES[q].name; }
std::string query(const Bank &b, int q, double x) {
  Out o;
  guarded(o, [&](Out &p) { QUERIES[q].f(p, b, x); });
  return o.s;
}

// ================================================================== identifiers
std::string new_identifier(int how) {
  UUID u;
  switch (how) {
    case 0:
      u = UUID::new_uuid();
      break;
    case 1:
      u = Frame::new_frame().id();
      break;
    case 2:
      u = resim::transforms::Frame<2>::new_frame().id();
      break;
    default:
      u = Vec3(Eigen::Vector3d(1, 2, 3)).frame().id();
  }
  if (u.is_null()) return "!a generated identifier is null";
  std::string text = u.to_string();
  if (text.size() != 36) return "!text form '" + text + "'";
  UUID back(text);
  if (back != u || !(back == u) || back.id() != u.id()) return "!" + text + " does not survive its text form";
  if (std::hash<UUID>()(back) != std::hash<UUID>()(u)) return "!equal identifiers with different hashes";
  return std::string((const char *)u.id().data(), 16);
}

// ================================================================== schedules
namespace {
struct Owned {
  std::shared_ptr<Token> token;
  std::string text;
};
template <typename Count>
struct ScheduleOf : Schedule {
  resim::time::EventSchedule<Owned, Count> e;
  void insert(int64_t t, std::shared_ptr<Token> token, const std::string &text) override {
    e.schedule_event(Timestamp(Duration(t)), Owned{std::move(token), text});
  }
  void top(int64_t *t, uint64_t *id, std::string *text) const override {
    const auto &x = e.top_event();
    *t = x.time.time_since_epoch().count();
    *id = x.payload.token ? x.payload.token->id : ~0ull;
    *text = x.payload.text;
  }
  void pop() override { e.pop_event(); }
  uint64_t churn(uint64_t n, int64_t t) override {
    uint64_t bad = 0;
    const Timestamp at{Duration(t)};
    for (uint64_t i = 0; i < n; i++) {
      e.schedule_event(at, Owned{nullptr, i % 2 ? "odd" : "even"});
      const auto &x = e.top_event();
      bad += x.time != at || x.payload.text != (i % 2 ? "odd" : "even");
      e.pop_event();
    }
    return bad;
  }
  uint64_t fill(uint64_t n, int64_t t, uint32_t ties) override {
    // n events at the `ties` instants before t, then all of them out again.
    for (uint64_t i = 0; i < n; i++)
      e.schedule_event(Timestamp{Duration(t - 1 - (int64_t)(i * 7 % ties))}, Owned{nullptr, std::to_string(i)});
    uint64_t bad = e.size() < n, before = 0;
    int64_t last = std::numeric_limits<int64_t>::min();
    for (uint64_t k = 0; k < n; k++) {
      const auto &x = e.top_event();
      int64_t at = x.time.time_since_epoch().count();
      uint64_t i = strtoull(x.payload.text.c_str(), nullptr, 10);
      bad += at >= t || at != t - 1 - (int64_t)(i * 7 % ties) || at < last || (at == last && i <= before);
      last = at;
      before = i;
      e.pop_event();
    }
    return bad;
  }
  size_t size() const override { return e.size(); }
  uint64_t limit() const override { return std::numeric_limits<Count>::max(); }
  std::unique_ptr<Schedule> copy() const override { return std::make_unique<ScheduleOf>(*this); }
};
}  // namespace
std::unique_ptr<Schedule> make_schedule(int kind) {
  if (kind == 0) return std::make_unique<ScheduleOf<uint64_t>>();
  if (kind == 2) return std::make_unique<ScheduleOf<uint16_t>>();
  return std::make_unique<ScheduleOf<uint8_t>>();
}

// ================================================================== curves
namespace {
struct Frames {
  bool framed = false;
  Frame ref, point, other;
};
Frames frames_of(uint64_t key, bool framed) {
  Rng r(key);
  Frames f;
  f.framed = framed;
  f.ref = rand_frame(r);
  f.point = rand_frame(r);
  f.other = rand_frame(r);
  return f;
}

template <typename G>
std::string in_step(const TCurve<G> &c) {
  size_t n = c.control_pts().size(), m = c.segments().size();
  if (m != (n ? n - 1 : 0))
    return std::to_string(n) + " control points but " + std::to_string(m) + " segments";
  for (size_t i = 0; i < m; i++) {
    const auto &s = c.segments()[i];
    if (s.orig_time != c.control_pts()[i].time || s.dest_time != c.control_pts()[i + 1].time)
      return "segment " + std::to_string(i) + " does not join its control points in time";
    Out a, b;
    a(s.curve.orig().frame_from_ref());
    a(s.curve.dest().frame_from_ref());
    b(c.control_pts()[i].point.frame_from_ref());
    b(c.control_pts()[i + 1].point.frame_from_ref());
    if (a.s != b.s) return "segment " + std::to_string(i) + " does not join its control points";
    if (!(s.orig_time < s.dest_time)) return "times do not increase at segment " + std::to_string(i);
  }
  return "";
}
std::string in_step(const DCurve<SE3> &c) {
  size_t n = c.control_pts().size(), m = c.segments().size();
  if (m != (n ? n - 1 : 0))
    return std::to_string(n) + " control points but " + std::to_string(m) + " segments";
  for (size_t i = 0; i < m; i++) {
    const auto &s = c.segments()[i];
    if (s.orig_arc_length != c.control_pts()[i].arc_length ||
        s.dest_arc_length != c.control_pts()[i + 1].arc_length)
      return "segment " + std::to_string(i) + " does not join its control points in length";
    Out a, b;
    a(*s.ref_from_orig);
    a(*s.ref_from_dest);
    b(*c.control_pts()[i].ref_from_control);
    b(*c.control_pts()[i + 1].ref_from_control);
    if (a.s != b.s) return "segment " + std::to_string(i) + " does not join its control points";
    if (s.orig_arc_length > s.dest_arc_length) return "lengths decrease at segment " + std::to_string(i);
  }
  return "";
}

// A copy in the place of another (not every type can be assigned).
template <typename T>
void anew(T &place, const T &from) {
  T keep(from);
  std::destroy_at(&place);
  new (&place) T(keep);
}
template <typename G>
struct TCurveOf : Curve {
  Frames f;
  TCurve<G> c;
  typename TCurve<G>::Control make(uint64_t key, double t, int flaw) const {
    Rng r(key);
    return {t, rand_jetl<G>(r, flaw == 3 ? false : f.framed, flaw == 2 ? f.other : f.point,
                            flaw == 1 ? f.other : f.ref)};
  }
  void append(uint64_t key, double t, int flaw) override { c.append(make(key, t, flaw)); }
  void append_list(const std::vector<uint64_t> &k, const std::vector<double> &t) override {
    if (k.size() == 2)
      c.append({make(k[0], t[0], 0), make(k[1], t[1], 0)});
    else
      c.append({make(k[0], t[0], 0), make(k[1], t[1], 0), make(k[2], t[2], 0)});
  }
  std::string digest(int q) const override {
    Out o;
    all_of(o, c, q);
    return o.s;
  }
  std::string at(double x) const override {
    Out o;
    guarded(o, [&](Out &q) { q(c.point_at(lerp(c.start_time(), c.end_time(), x))); });
    return o.s;
  }
  std::string broken() const override { return in_step(c); }
  size_t points() const override { return c.control_pts().size(); }
  std::unique_ptr<Curve> fresh() const override {
    auto p = std::make_unique<TCurveOf>();
    p->f = f;
    return p;
  }
  std::unique_ptr<Curve> copy() const override { return std::make_unique<TCurveOf>(*this); }
  bool assign(const Curve &other) override {
    auto *o = dynamic_cast<const TCurveOf *>(&other);
    if (!o) return false;
    f = o->f;
    anew(c, o->c);
    return true;
  }
  bool timed() const override { return true; }
};
struct DCurveOf : Curve {
  Frames f;
  DCurve<SE3> c;
  SE3 make(uint64_t key, int flaw) const {
    Rng r(key);
    return rand_group<SE3>(r, flaw == 3 ? false : f.framed, flaw == 1 ? f.other : f.ref,
                           flaw == 2 ? f.other : f.point);
  }
  void append(uint64_t key, double, int flaw) override { c.append(make(key, flaw)); }
  void append_list(const std::vector<uint64_t> &k, const std::vector<double> &) override {
    if (k.size() == 2)
      c.append({make(k[0], 0), make(k[1], 0)});
    else
      c.append({make(k[0], 0), make(k[1], 0), make(k[2], 0)});
  }
  std::string digest(int q) const override {
    Out o;
    all_of(o, c, q);
    return o.s;
  }
  std::string at(double x) const override {
    Out o;
    guarded(o, [&](Out &q) { q(c.point_at(x * c.curve_length())); });
    return o.s;
  }
  std::string broken() const override { return in_step(c); }
  size_t points() const override { return c.control_pts().size(); }
  std::unique_ptr<Curve> fresh() const override {
    auto p = std::make_unique<DCurveOf>();
    p->f = f;
    return p;
  }
  std::unique_ptr<Curve> copy() const override { return std::make_unique<DCurveOf>(*this); }
  bool assign(const Curve &other) override {
    auto *o = dynamic_cast<const DCurveOf *>(&other);
    if (!o) return false;
    f = o->f;
    anew(c, o->c);
    return true;
  }
  bool timed() const override { return false; }
};
struct TrajectoryOf : Curve {
  Frames f;
  Trajectory c;
  Trajectory::Control make(uint64_t key, double t, int flaw) const {
    Rng r(key);
    Timestamp at(Duration(std::isfinite(t) ? 1700000000000000000ll + (int64_t)std::llround(t * 1e9) : 0));
    return {at, RigidBodyState<SE3>(rand_jetr<SE3>(r, flaw == 3 ? false : true, flaw == 1 ? f.other : f.ref,
                                                   flaw == 2 ? f.other : f.point))};
  }
  void append(uint64_t key, double t, int flaw) override { c.append(make(key, t, flaw)); }
  void append_list(const std::vector<uint64_t> &k, const std::vector<double> &t) override {
    if (k.size() == 2)
      c.append({make(k[0], t[0], 0), make(k[1], t[1], 0)});
    else
      c.append({make(k[0], t[0], 0), make(k[1], t[1], 0), make(k[2], t[2], 0)});
  }
  std::string digest(int q) const override {
    Out o;
    all_of(o, c, q);
    return o.s;
  }
  std::string at(double x) const override {
    Out o;
    guarded(o, [&](Out &q) { if (points()) q(c.point_at(Duration((int64_t)((double)c.time_duration().count() * x)))); });
    return o.s;
  }
  std::string broken() const override {
    std::string s = in_step(c.curve());
    if (s.empty() && points() && c.curve().control_pts().front().time != 0) s = "does not start at 0 s";
    return s;
  }
  size_t points() const override { return c.curve().control_pts().size(); }
  std::unique_ptr<Curve> fresh() const override {
    auto p = std::make_unique<TrajectoryOf>();
    p->f = f;
    return p;
  }
  std::unique_ptr<Curve> copy() const override { return std::make_unique<TrajectoryOf>(*this); }
  bool assign(const Curve &other) override {
    auto *o = dynamic_cast<const TrajectoryOf *>(&other);
    if (!o) return false;
    f = o->f;
    anew(c, o->c);
    return true;
  }
  bool timed() const override { return true; }
};
}  // namespace
std::unique_ptr<Curve> make_curve(int kind, uint64_t key, bool framed) {
  Frames f = frames_of(key, framed);
  switch (kind) {
    case 0: {
      auto p = std::make_unique<TCurveOf<SE3>>();
      p->f = f;
      return p;
    }
    case 1: {
      auto p = std::make_unique<TCurveOf<SO3>>();
      p->f = f;
      return p;
    }
    case 2: {
      auto p = std::make_unique<DCurveOf>();
      p->f = f;
      return p;
    }
    default: {
      auto p = std::make_unique<TrajectoryOf>();
      p->f = f;
      p->f.framed = true;
      return p;
    }
  }
}

// ================================================================== programs
namespace {
struct GaussianUse {
  Eigen::VectorXd mu;
  Eigen::MatrixXd cov;
  std::unique_ptr<resim::math::Gaussian> g;
  std::vector<unsigned> calls;
};
struct CurveUse {
  std::unique_ptr<Curve> c;
  std::vector<std::pair<uint64_t, double>> given;
  double t = 0;
};
struct ScheduleUse {
  EventSchedule e;
  std::vector<std::pair<int64_t, std::string>> want;
};
std::string hex(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  char b[40];
  snprintf(b, sizeof b, "%zu:%016llx", s.size(), (unsigned long long)h);
  return b;
}
}  // namespace

std::vector<std::string> program(uint64_t key, int steps, void (*turn)()) {
  Rng r(key);
  std::vector<std::string> log;
  std::vector<GaussianUse> gs;
  std::vector<CurveUse> cs;
  std::vector<ScheduleUse> ss;
  std::shared_ptr<const Bank> banks[2];
  int about = 0;
  const bool grid = r.below(2);  // all curves at the same times
  std::mt19937 rng((uint32_t)r.u64());
  auto drawn = [](resim::math::Gaussian &g, unsigned n, Out &o) {
    if (n == 1)
      o(g.sample());
    else
      o(g.samples(n == 4 ? 1 : n));
  };
  auto sample = [&](GaussianUse &u) {
    // mostly a few samples; now and then many
    unsigned n = r.below(12) ? 1 + r.below(4) : 60 + r.below(300);
    Out o;
    drawn(*u.g, n, o);
    u.calls.push_back(n);
    return o.s;
  };
  for (int i = 0; i < steps; i++) {
    turn();
    Out o;
    char what[80] = "";
    switch (r.below(18)) {
      case 16: {
        if (cs.empty()) break;
        size_t j = r.below((uint32_t)cs.size());
        if (r.below(2)) {
          // another may come to lie where it was
          cs.erase(cs.begin() + (long)j);
          snprintf(what, sizeof what, "drop curve %zu", j);
          break;
        }
        if (r.below(2)) {
          // the same times and other points, in the same place
          double x = (double)r.below(5) / 4;
          auto other = cs[j].c->fresh();
          for (auto &p : cs[j].given) {
            p.first = r.u64();
            other->append(p.first, p.second, 0);
          }
          o(cs[j].c->at(x));
          cs[j].c->assign(*other);
          std::string got = cs[j].c->at(x);
          o(got);
          if (got != other->at(x)) log.push_back("BAD curve: a curve answers as the one that was in its place before");
          snprintf(what, sizeof what, "replace curve %zu", j);
          break;
        }
        size_t k = r.below((uint32_t)cs.size());
        if (cs[j].c->assign(*cs[k].c)) {
          cs[j].given = cs[k].given;
          cs[j].t = cs[k].t;
        }
        snprintf(what, sizeof what, "assign curve %zu to %zu", k, j);
        break;
      }
      case 17: {
        if (gs.empty()) break;
        size_t j = r.below((uint32_t)gs.size());
        if (r.below(2)) {
          gs.erase(gs.begin() + (long)j);
          snprintf(what, sizeof what, "drop gaussian %zu", j);
          break;
        }
        size_t k = r.below((uint32_t)gs.size());
        anew(*gs[j].g, *gs[k].g);
        gs[j].mu = gs[k].mu;
        gs[j].cov = gs[k].cov;
        gs[j].calls = gs[k].calls;
        snprintf(what, sizeof what, "assign gaussian %zu to %zu", k, j);
        break;
      }
      case 12:
      case 13:
      case 14: {
        // any question to objects of one's own
        auto &b = banks[r.below(2)];
        if (!b) b = make_bank(r.u64());
        int q = (int)r.below((uint32_t)query_count());
        if (r.below(2)) q = about;
        about = q;
        double x = (double)r.below(9) / 8;
        o(query(*b, q, x));
        snprintf(what, sizeof what, "%s at %.3f", query_name(q), x);
        break;
      }
      case 0: {
        if (gs.size() > 3) break;
        GaussianUse u;
        int dim = 1 + (int)r.below(3);
        u.mu = Eigen::VectorXd(dim);
        for (int k = 0; k < dim; k++) u.mu[k] = r.sym(5);
        u.cov = rand_cov(r, dim);
        // identical constructions must give identical sequences
        if (!gs.empty() && r.below(2)) {
          u.mu = gs[0].mu;
          u.cov = gs[0].cov;
          if (r.below(2)) u.cov *= 1 + 1e-13;  // as good as identical is not identical
        }
        u.g = std::make_unique<resim::math::Gaussian>(u.mu, u.cov);
        gs.push_back(std::move(u));
        snprintf(what, sizeof what, "new gaussian %zu", gs.size() - 1);
        break;
      }
      case 1:
      case 2: {
        if (gs.empty()) break;
        size_t j = r.below((uint32_t)gs.size());
        std::string got = sample(gs[j]);
        o(got);
        snprintf(what, sizeof what, "sample gaussian %zu", j);
        // a generator built and used the same way from scratch
        if (r.below(2)) {
          resim::math::Gaussian again(gs[j].mu, gs[j].cov);
          Out q;
          for (unsigned n : gs[j].calls) {
            q.s.clear();
            drawn(again, n, q);
          }
          if (q.s != got)
            log.push_back("BAD gaussian: a generator's samples are not fixed by its construction and calls");
        }
        break;
      }
      case 3: {
        if (gs.empty() || gs.size() > 3) break;
        size_t j = r.below((uint32_t)gs.size());
        GaussianUse u;
        u.mu = gs[j].mu;
        u.cov = gs[j].cov;
        u.calls = gs[j].calls;
        u.g = std::make_unique<resim::math::Gaussian>(*gs[j].g);
        gs.push_back(std::move(u));
        snprintf(what, sizeof what, "copy gaussian %zu", j);
        break;
      }
      case 4: {
        if (cs.size() > 5) break;
        CurveUse u;
        int kind = (int)r.below(CURVE_KINDS);
        u.c = make_curve(kind, r.u64(), r.below(2));
        u.t = grid ? 0 : r.sym(3);
        cs.push_back(std::move(u));
        snprintf(what, sizeof what, "new curve %zu of kind %d", cs.size() - 1, kind);
        break;
      }
      case 5:
      case 6: {
        if (cs.empty()) break;
        size_t j = r.below((uint32_t)cs.size());
        uint64_t k = r.u64();
        cs[j].t += grid ? 1 : 0.5 + r.unit();
        cs[j].c->append(k, cs[j].t, 0);
        cs[j].given.push_back({k, cs[j].t});
        snprintf(what, sizeof what, "append to curve %zu", j);
        break;
      }
      case 7: {
        if (cs.empty() || cs.size() > 5) break;
        size_t j = r.below((uint32_t)cs.size());
        CurveUse u;
        u.c = cs[j].c->copy();
        u.given = cs[j].given;
        u.t = cs[j].t;
        cs.push_back(std::move(u));
        snprintf(what, sizeof what, "copy curve %zu", j);
        break;
      }
      case 8: {
        if (cs.empty()) break;
        size_t j = r.below((uint32_t)cs.size());
        auto again = cs[j].c->fresh();
        for (auto &p : cs[j].given) again->append(p.first, p.second, 0);
        bool one = r.below(2);
        double x = (double)r.below(5) / 4;
        std::string got = one ? cs[j].c->at(x) : cs[j].c->digest(2);
        o(got);
        if ((one ? again->at(x) : again->digest(2)) != got)
          log.push_back("BAD curve: a curve differs from one built from its own points alone");
        snprintf(what, sizeof what, "query curve %zu", j);
        break;
      }
      case 9: {
        if (ss.size() < 2 || r.below(4) == 0) {
          ScheduleUse u;
          if (!ss.empty() && r.below(2)) u = ss[r.below((uint32_t)ss.size())];
          if (ss.size() < 4) ss.push_back(std::move(u));
          break;
        }
        ScheduleUse &u = ss[r.below((uint32_t)ss.size())];
        int64_t t = (int64_t)r.below(5);
        std::string text = "payload number " + std::to_string(r.u64());
        u.e.schedule_event(Timestamp(Duration(t)), text);
        auto at = u.want.begin();
        while (at != u.want.end() && at->first <= t) ++at;
        u.want.insert(at, {t, text});
        snprintf(what, sizeof what, "schedule");
        break;
      }
      case 10: {
        if (ss.empty()) break;
        ScheduleUse &u = ss[r.below((uint32_t)ss.size())];
        if (u.e.size() != u.want.size()) {
          log.push_back("BAD schedule: wrong number of events");
          break;
        }
        if (u.want.empty()) break;
        auto &e = u.e.top_event();
        o(e.time);
        o(e.payload);
        if (e.time.time_since_epoch().count() != u.want[0].first || e.payload != u.want[0].second)
          log.push_back("BAD schedule: another schedule's event, or out of order");
        u.e.pop_event();
        u.want.erase(u.want.begin());
        snprintf(what, sizeof what, "pop");
        break;
      }
      default: {
        o(resim::testing::random_vector<Eigen::Vector3d>(rng));
        o(resim::testing::random_quaternion(rng).coeffs());
        o(resim::time::random_duration(resim::InOut(rng)));
        snprintf(what, sizeof what, "random values");
      }
    }
    log.push_back(std::string(what) + " " + hex(o.s));
  }
  return log;
}

// ================================================================== messages
namespace {
const char *const NAMES[MESSAGE_KINDS] = {"UUID",        "Frame_3",     "FramedVector_3", "SO3",        "SE3",
                                          "TwoJetL_SE3", "TwoJetR_SE3", "TwoJetL_SO3",    "TwoJetR_SO3", "TCurve_SE3",
                                          "TCurve_SO3",  "DCurve_SE3",  "Trajectory",     "ViewUpdate"};
namespace tp = resim::transforms::proto;
namespace cp = resim::curves::proto;
namespace ap = resim::actor::state::proto;
namespace vp = resim::visualization::proto;

std::string lower(std::string s) {
  s = s.c_str();
  for (char &c : s)
    if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
  return s;
}
bool bits_equal(double a, double b) { return memcmp(&a, &b, 8) == 0; }

void check(const UUID &o, const resim::proto::UUID &m, std::string &why) {
  if (o.to_string() != lower(m.data())) why = "identifier '" + o.to_string() + "' from '" + m.data() + "'";
}
void check(const Frame &o, const tp::Frame_3 &m, std::string &why) { check(o.id(), m.id(), why); }
template <typename V>
void check_numbers(const V &v, const google::protobuf::RepeatedField<double> &m, std::string &why) {
  if (m.size() != v.size()) {
    why = std::to_string(v.size()) + " numbers from " + std::to_string(m.size());
    return;
  }
  for (int i = 0; i < m.size(); i++)
    if (!bits_equal(v[i], m.Get(i))) why = "number " + std::to_string(i) + " is not the one in the message";
}
void check(const Vec3 &o, const tp::FramedVector_3 &m, std::string &why) {
  check(o.frame(), m.frame(), why);
  check_numbers(o.vector(), m.algebra(), why);
}
void check_rotation(const Eigen::Matrix3d &R, bool tame, std::string &why) {
  if (!tame) return;
  if (!((R * R.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9) || !(R.determinant() > 0))
    why = "the rotation is not a rotation";
}
template <typename G, typename M>
void check_group(const G &o, const M &m, std::string &why) {
  check(o.into(), m.into(), why);
  check(o.from(), m.from(), why);
  if (o.into().is_null() != o.from().is_null()) why = "only one frame is null";
  if (m.algebra_size() != (int)G::DOF) {
    why = "a transform from " + std::to_string(m.algebra_size()) + " numbers";
    return;
  }
  bool tame = true;
  for (double d : m.algebra()) tame = tame && std::abs(d) < 100;  // false for NaN
  if constexpr (G::DOF == 3) {
    check_rotation(o.rotation_matrix(), tame, why);
  } else {
    check_rotation(o.rotation().rotation_matrix(), tame, why);
  }
  if (tame && why.empty()) {
    // it is the transform the numbers describe
    typename G::TangentVector alg;
    for (int i = 0; i < (int)G::DOF; i++) alg[i] = m.algebra(i);
    const G want = G::exp(alg);
    if (!want.is_approx_transform(o)) why = "not the transform in the message";
  }
}
void check(const SO3 &o, const tp::SO3 &m, std::string &why) { check_group(o, m, why); }
void check(const SE3 &o, const tp::SE3 &m, std::string &why) { check_group(o, m, why); }
template <typename G, typename M>
void check(const TwoJetL<G> &o, const M &m, std::string &why) {
  check(o.frame_from_ref(), m.frame_from_ref(), why);
  check_numbers(o.d_frame_from_ref(), m.d_frame_from_ref(), why);
  check_numbers(o.d2_frame_from_ref(), m.d2_frame_from_ref(), why);
}
template <typename G, typename M>
void check(const TwoJetR<G> &o, const M &m, std::string &why) {
  check(o.ref_from_frame(), m.ref_from_frame(), why);
  check_numbers(o.d_ref_from_frame(), m.d_ref_from_frame(), why);
  check_numbers(o.d2_ref_from_frame(), m.d2_ref_from_frame(), why);
}
template <typename G, typename M>
void check(const TCurve<G> &o, const M &m, std::string &why) {
  size_t n = o.control_pts().size();
  if (n != (size_t)m.points_size()) {
    why = std::to_string(n) + " control points from " + std::to_string(m.points_size());
    return;
  }
  if (o.segments().size() != (n ? n - 1 : 0)) {
    why = std::to_string(n) + " control points with " + std::to_string(o.segments().size()) + " segments";
    return;
  }
  for (size_t i = 0; i < n && why.empty(); i++) {
    const auto &p = o.control_pts()[i];
    if (!bits_equal(p.time, m.points((int)i).time())) why = "time of a control point";
    check(p.point, m.points((int)i).point(), why);
    if (i && !(p.time > o.control_pts()[i - 1].time)) why = "times do not increase";
    if (i && (p.point.frame_from_ref().into() != o.point_frame() ||
              p.point.frame_from_ref().from() != o.reference_frame()))
      why = "control points with different frames";
    if (i && (!bits_equal(o.segments()[i - 1].orig_time, o.control_pts()[i - 1].time) ||
              !bits_equal(o.segments()[i - 1].dest_time, p.time)))
      why = "a segment does not join its control points";
  }
}
void check(const DCurve<SE3> &o, const cp::DCurve_SE3 &m, std::string &why) {
  size_t n = o.control_pts().size();
  if (n != (size_t)m.ref_from_control_size()) {
    why = std::to_string(n) + " control points from " + std::to_string(m.ref_from_control_size());
    return;
  }
  if (o.segments().size() != (n ? n - 1 : 0)) {
    why = std::to_string(n) + " control points with " + std::to_string(o.segments().size()) + " segments";
    return;
  }
  for (size_t i = 0; i < n && why.empty(); i++) {
    const auto &p = o.control_pts()[i];
    if (!p.ref_from_control) {
      why = "a control point without a transform";
      return;
    }
    check(*p.ref_from_control, m.ref_from_control((int)i), why);
    if (i && o.is_framed() &&
        (p.ref_from_control->into() != o.reference_frame() || p.ref_from_control->from() != o.point_frame()))
      why = "control points with different frames";
    if (i && p.arc_length < o.control_pts()[i - 1].arc_length) why = "arc lengths decrease";
  }
}
void check(const Trajectory &o, const ap::Trajectory &m, std::string &why) {
  check(o.curve(), m.curve(), why);
  __int128 want = (__int128)m.start_time().seconds() * 1000000000 + m.start_time().nanos();
  if (want == (int64_t)want && o.start_time().time_since_epoch().count() != (int64_t)want)
    why = "start time is not the one in the message";
}
void check(const resim::visualization::ViewPrimitive &o, const vp::ViewPrimitive &m, std::string &why) {
  check(o.id, m.id(), why);
  if (o.user_defined_name.value_or("") != m.user_defined_name() || o.file_name != m.file_name() ||
      o.line_number != m.line_number())
    why = "name, file or line is not the one in the message";
  bool right = false;
  resim::match(
      o.payload,
      [&](const Frame &x) { if ((right = m.has_frame())) check(x, m.frame(), why); },
      [&](const SE3 &x) { if ((right = m.has_se3())) check(x, m.se3(), why); },
      [&](const SO3 &x) { if ((right = m.has_so3())) check(x, m.so3(), why); },
      [&](const DCurve<SE3> &x) { if ((right = m.has_d_curve_se3())) check(x, m.d_curve_se3(), why); },
      [&](const TCurve<SE3> &x) { if ((right = m.has_t_curve_se3())) check(x, m.t_curve_se3(), why); },
      [&](const Trajectory &x) { if ((right = m.has_trajectory())) check(x, m.trajectory(), why); },
      [&](const Vec3 &x) { if ((right = m.has_framed_vector())) check(x, m.framed_vector(), why); });
  if (!right) why = "payload of another kind than the message's";
}
void check(const resim::visualization::ViewUpdate &o, const vp::ViewUpdate &m, std::string &why) {
  if (o.primitives.size() != (size_t)m.primitive_size()) {
    why = std::to_string(o.primitives.size()) + " primitives from " + std::to_string(m.primitive_size());
    return;
  }
  for (size_t i = 0; i < o.primitives.size() && why.empty(); i++) check(o.primitives[i], m.primitive((int)i), why);
}

void put(Out &o, const UUID &x) { o(x); }
void put(Out &o, const Frame &x) { o(x); }
void put(Out &o, const Vec3 &x) { o(x); }
void put(Out &o, const SO3 &x) { o(x); }
void put(Out &o, const SE3 &x) { o(x); }
template <typename G>
void put(Out &o, const TwoJetL<G> &x) {
  o(x);
}
template <typename G>
void put(Out &o, const TwoJetR<G> &x) {
  o(x);
}
template <typename G>
void put(Out &o, const TCurve<G> &x) {
  all_of(o, x, 2);
}
void put(Out &o, const DCurve<SE3> &x) { all_of(o, x, 2); }
void put(Out &o, const Trajectory &x) {
  o(x.start_time());
  all_of(o, x.curve(), 2);
}
void put(Out &o, const resim::visualization::ViewUpdate &x) {
  for (const auto &p : x.primitives) {
    o(p.id);
    o(p.user_defined_name.has_value());
    o(p.user_defined_name.value_or(""));
    o(p.file_name);
    o((int64_t)p.line_number);
    resim::match(
        p.payload,
        [&](const Frame &v) { put(o, v); },
        [&](const SE3 &v) { put(o, v); },
        [&](const SO3 &v) { put(o, v); },
        [&](const DCurve<SE3> &v) { put(o, v); },
        [&](const TCurve<SE3> &v) { put(o, v); },
        [&](const Trajectory &v) { put(o, v); },
        [&](const Vec3 &v) { put(o, v); });
  }
}

template <typename M>
Decoded decode_as(const std::string &bytes) {
  Decoded d;
  M m;
  d.parsed = m.ParseFromString(bytes);
  if (!d.parsed) return d;
  try {
    auto object = unpack(m);
    check(object, m, d.problem);
    Out o;
    put(o, object);
    d.digest = o.s;
  } catch (const std::exception &e) {
    d.threw = true;
    d.error = e.what();
  }
  return d;
}
template <typename M>
std::string text(const M &m) {
  std::string s;
  m.SerializeToString(&s);
  return s;
}
}  // namespace

const char *message_name(int kind) { return NAMES[kind]; }

std::string encode(int kind, uint64_t key) {
  Rng r(key);
  const Frame a = rand_frame(r), b = rand_frame(r);
  bool framed = r.below(4) != 0;
  int n = (int)r.below(5);
  switch (kind) {
    case 0: return packed<resim::proto::UUID>(a.id());
    case 1: return packed<tp::Frame_3>(a);
    case 2: return packed<tp::FramedVector_3>(Vec3(rand_vec<3>(r, 5), a));
    case 3: return packed<tp::SO3>(rand_group<SO3>(r, framed, a, b));
    case 4: return packed<tp::SE3>(rand_group<SE3>(r, framed, a, b));
    case 5: return packed<cp::TwoJetL_SE3>(rand_jetl<SE3>(r, framed, a, b));
    case 6: return packed<cp::TwoJetR_SE3>(rand_jetr<SE3>(r, framed, a, b));
    case 7: return packed<cp::TwoJetL_SO3>(rand_jetl<SO3>(r, framed, a, b));
    case 8: return packed<cp::TwoJetR_SO3>(rand_jetr<SO3>(r, framed, a, b));
    case 9: return packed<cp::TCurve_SE3>(rand_tcurve<SE3>(r, framed, a, b, n, r.sym(5)));
    case 10: return packed<cp::TCurve_SO3>(rand_tcurve<SO3>(r, framed, a, b, n, r.sym(5)));
    case 11: return packed<cp::DCurve_SE3>(rand_dcurve(r, framed, a, b, n));
    case 12: return packed<ap::Trajectory>(rand_traj(r, a, b, n));
    default: {
      resim::visualization::ViewUpdate u;
      for (int i = 0; i < n; i++) {
        resim::visualization::ViewPrimitive p;
        p.id = rand_frame(r).id();
        switch (r.below(7)) {
          case 0: p.payload.emplace<Frame>(a); break;
          case 1: p.payload.emplace<SE3>(rand_group<SE3>(r, framed, a, b)); break;
          case 2: p.payload.emplace<SO3>(rand_group<SO3>(r, framed, a, b)); break;
          case 3: p.payload.emplace<DCurve<SE3>>(rand_dcurve(r, framed, a, b, (int)r.below(4))); break;
          case 4: p.payload.emplace<TCurve<SE3>>(rand_tcurve<SE3>(r, framed, a, b, (int)r.below(4), 0)); break;
          case 5: p.payload.emplace<Trajectory>(rand_traj(r, a, b, (int)r.below(4))); break;
          default: p.payload.emplace<Vec3>(Vec3(rand_vec<3>(r, 5), a));
        }
        if (r.below(2)) p.user_defined_name = "name " + std::to_string(i);
        p.file_name = "dir/file.cc";
        p.line_number = 10 + i;
        u.primitives.push_back(p);
      }
      return packed<vp::ViewUpdate>(u);
    }
  }
}
Decoded decode(int kind, const std::string &bytes) {
  switch (kind) {
    case 0: return decode_as<resim::proto::UUID>(bytes);
    case 1: return decode_as<tp::Frame_3>(bytes);
    case 2: return decode_as<tp::FramedVector_3>(bytes);
    case 3: return decode_as<tp::SO3>(bytes);
    case 4: return decode_as<tp::SE3>(bytes);
    case 5: return decode_as<cp::TwoJetL_SE3>(bytes);
    case 6: return decode_as<cp::TwoJetR_SE3>(bytes);
    case 7: return decode_as<cp::TwoJetL_SO3>(bytes);
    case 8: return decode_as<cp::TwoJetR_SO3>(bytes);
    case 9: return decode_as<cp::TCurve_SE3>(bytes);
    case 10: return decode_as<cp::TCurve_SO3>(bytes);
    case 11: return decode_as<cp::DCurve_SE3>(bytes);
    case 12: return decode_as<ap::Trajectory>(bytes);
    default: return decode_as<vp::ViewUpdate>(bytes);
  }
}

}  // namespace ops
