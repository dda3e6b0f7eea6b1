#include "payload.h"

#include <cmath>
#include <cstring>
#include <set>

#include "resim/time/timestamp.hh"
#include "sim/sim.h"

namespace payload {
namespace {

using resim::actor::state::RigidBodyState;
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
using resim::curves::TwoJetL;
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame = resim::transforms::Frame<3>;
using FramedVector = resim::transforms::FramedVector<3>;

// Identifiers and frames of the harness are keyed to the seed, and not the repository's own.
resim::UUID seeded_uuid() {
  std::array<unsigned char, 16> b;
  uint64_t x = sim::entropy64(), y = sim::entropy64();
  memcpy(b.data(), &x, 8);
  memcpy(b.data() + 8, &y, 8);
  b[6] = (unsigned char)((b[6] & 0x0f) | 0x40);
  b[8] = (unsigned char)((b[8] & 0x3f) | 0x80);
  return resim::UUID(b);
}
Frame seeded_frame() { return Frame(seeded_uuid()); }

double unit() { return (double)(sim::entropy64() >> 11) / 9007199254740992.0 * 2 - 1; }

// Whether the object has frames of its own, so that no other is equal to it whatever its values.
bool distinct = false;

// Mostly anything; now and then nothing at all, or components that are zero, tiny or whole.
template <int N>
Eigen::Matrix<double, N, 1> vec(double scale) {
  Eigen::Matrix<double, N, 1> v;
  uint64_t e = sim::entropy64();
  bool zero = distinct && e % 24 == 0, odd = distinct && e % 8 == 1;
  for (int i = 0; i < N; i++) {
    static const double special[] = {0.0, -0.0, 1.0, -1.0, 1e-7, 1e-3, 0.5, 0.25};
    v[i] = scale * unit();
    if (zero) v[i] = 0;
    else if (odd && sim::entropy64() % 2) v[i] = special[sim::entropy64() % 8];
  }
  return v;
}
double rand_start() {
  switch (sim::entropy64() % 8) {
    case 0:
      return 0;
    case 1:
      return 1.7e9 + unit();
    case 2:
      return -1e5 * (1 + unit());
    default:
      return unit() * 10;
  }
}
double rand_step() {
  switch (sim::entropy64() % 16) {
    case 0:
      return 1e-3;
    case 1:
      return 1e-5;
    case 2:
      return 1;
    case 3:
      return 4000;
    default:
      return 0.5 + std::abs(unit());
  }
}
SE3::TangentVector alg6() {
  SE3::TangentVector v = vec<6>(1.0);
  v.tail<3>() *= 100.0;
  v.head<3>() *= 1.5;
  return v;
}
SE3 rand_se3(bool framed, const Frame &into, const Frame &from) {
  return framed ? SE3::exp(alg6(), into, from) : SE3::exp(alg6());
}
// Mostly a few points, now and then one or very many.
uint32_t curve_points() {
  switch (sim::choose(64)) {
    case 63:
      return 400 + sim::choose(400);
    case 62:
    case 61:
      return 1;
    case 60:
      return 0;
    default:
      return 2 + sim::choose(3);
  }
}
bool standing() { return sim::entropy64() % 12 == 0; }
TCurve<SE3> rand_tcurve(double t0, uint32_t least) {
  bool framed = distinct = sim::choose(2);
  const Frame a = seeded_frame(), b = seeded_frame();
  std::vector<TCurve<SE3>::Control> pts;
  uint32_t n = std::max(least, curve_points());
  double t = t0;
  for (uint32_t i = 0; i < n; i++) {
    // Vehicles also stand still.
    if (i && standing()) pts.push_back({t, pts.back().point});
    else pts.push_back({t, TwoJetL<SE3>(rand_se3(framed, a, b), vec<6>(1.0), vec<6>(1.0))});
    t += rand_step();
  }
  return TCurve<SE3>(pts);
}

struct Wire {
  const unsigned char *p, *e;
  bool bad = false;
  explicit Wire(const std::string &s)
      : p((const unsigned char *)s.data()), e(p + s.size()) {}
  bool more() const { return !bad && p < e; }
  uint64_t varint() {
    uint64_t v = 0;
    for (int sh = 0; sh < 70; sh += 7) {
      if (p >= e) break;
      unsigned char c = *p++;
      v |= (uint64_t)(c & 127) << sh;
      if (!(c & 128)) return v;
    }
    bad = true;
    return 0;
  }
  std::string bytes() {
    uint64_t n = varint();
    if (bad || n > (uint64_t)(e - p)) {
      bad = true;
      return "";
    }
    std::string s((const char *)p, n);
    p += n;
    return s;
  }
  double fixed64() {
    if (e - p < 8) {
      bad = true;
      return 0;
    }
    double d;
    memcpy(&d, p, 8);
    p += 8;
    return d;
  }
  void skip(int wt) {
    if (wt == 0) varint();
    else if (wt == 1) fixed64();
    else if (wt == 2) bytes();
    else if (wt == 5 && e - p >= 4) p += 4;
    else bad = true;
  }
};

std::string dec_uuid(const std::string &s, bool *bad) {
  Wire w(s);
  std::string r;
  while (w.more()) {
    uint64_t k = w.varint();
    if (k == ((1 << 3) | 2)) r = w.bytes();
    else w.skip((int)(k & 7));
  }
  *bad |= w.bad;
  return r;
}
std::string dec_frame(const std::string &s, bool *bad) {
  Wire w(s);
  std::string r;
  while (w.more()) {
    uint64_t k = w.varint();
    if (k == ((1 << 3) | 2)) r = dec_uuid(w.bytes(), bad);
    else w.skip((int)(k & 7));
  }
  *bad |= w.bad;
  return r;
}
void dec_doubles(Wire &w, int wt, std::vector<double> &out) {
  if (wt == 2) {
    std::string b = w.bytes();
    for (size_t i = 0; i + 8 <= b.size(); i += 8) {
      double d;
      memcpy(&d, b.data() + i, 8);
      out.push_back(d);
    }
    if (b.size() % 8) w.bad = true;
  } else if (wt == 1) {
    out.push_back(w.fixed64());
  } else {
    w.bad = true;
  }
}
struct Group {
  std::vector<double> alg;
  std::string into, from;
};
Group dec_group(const std::string &s, bool *bad) {
  Wire w(s);
  Group g;
  while (w.more()) {
    uint64_t k = w.varint();
    int f = (int)(k >> 3), wt = (int)(k & 7);
    if (f == 1) dec_doubles(w, wt, g.alg);
    else if (f == 2 && wt == 2) g.into = dec_frame(w.bytes(), bad);
    else if (f == 3 && wt == 2) g.from = dec_frame(w.bytes(), bad);
    else w.skip(wt);
  }
  *bad |= w.bad;
  return g;
}
template <typename V>
bool near_vec(const std::vector<double> &a, const V &b) {
  if ((long)a.size() != b.size()) return false;
  for (long i = 0; i < b.size(); i++)
    if (!(std::abs(a[(size_t)i] - b[i]) <= 1e-9 * (1 + std::abs(b[i])))) return false;
  return true;
}
template <typename G>
bool same_group(const G &g, const Group &d, std::string &why) {
  typename G::TangentVector l = g.log();
  if (!near_vec(d.alg, l)) {
    why = "transform values differ";
    return false;
  }
  typename G::TangentVector v;
  for (long i = 0; i < v.size(); i++) v[i] = d.alg[(size_t)i];
  G back = g.is_framed() ? G::exp(v, g.into(), g.from()) : G::exp(v);
  for (int k = 0; k < 4; k++) {
    Eigen::Vector3d x = Eigen::Vector3d::Zero();
    if (k < 3) x[k] = 1;
    Eigen::Vector3d a = back * x, b = g * x;
    if (!((a - b).norm() <= 1e-6 * (1 + b.norm()))) {
      why = "transform values do not describe the object";
      return false;
    }
  }
  if (d.into != g.into().id().to_string() || d.from != g.from().id().to_string()) {
    why = "coordinate frames differ: " + d.into + " <- " + d.from + " instead of " +
          g.into().id().to_string() + " <- " + g.from().id().to_string();
    return false;
  }
  return true;
}
bool same_tcurve(const TCurve<SE3> &c, const std::string &raw, std::string &why) {
  Wire w(raw);
  size_t i = 0;
  const auto &pts = c.control_pts();
  bool bad = false;
  while (w.more()) {
    uint64_t k = w.varint();
    if (k != ((1 << 3) | 2)) {
      w.skip((int)(k & 7));
      continue;
    }
    std::string b = w.bytes();
    Wire q(b);
    double time = 0;
    std::string jet;
    while (q.more()) {
      uint64_t kk = q.varint();
      if (kk == ((1 << 3) | 1)) time = q.fixed64();
      else if (kk == ((2 << 3) | 2)) jet = q.bytes();
      else q.skip((int)(kk & 7));
    }
    bad |= q.bad;
    Wire j(jet);
    Group g;
    std::vector<double> d, d2;
    while (j.more()) {
      uint64_t kk = j.varint();
      int f = (int)(kk >> 3), wt = (int)(kk & 7);
      if (f == 1 && wt == 2) g = dec_group(j.bytes(), &bad);
      else if (f == 2) dec_doubles(j, wt, d);
      else if (f == 3) dec_doubles(j, wt, d2);
      else j.skip(wt);
    }
    bad |= j.bad;
    if (i >= pts.size()) {
      why = "too many control points";
      return false;
    }
    if (time != pts[i].time) {
      why = "control point time differs";
      return false;
    }
    if (!same_group(pts[i].point.frame_from_ref(), g, why)) return false;
    if (!near_vec(d, pts[i].point.d_frame_from_ref()) ||
        !near_vec(d2, pts[i].point.d2_frame_from_ref())) {
      why = "control point derivatives differ";
      return false;
    }
    i++;
  }
  if (w.bad || bad) {
    why = "malformed curve";
    return false;
  }
  if (i != pts.size()) {
    why = "control points are missing";
    return false;
  }
  return true;
}

}  // namespace

resim::UUID random_uuid() { return seeded_uuid(); }

Payload random_payload(int kind) {
  bool framed = distinct = sim::choose(2);
  const Frame a = seeded_frame(), b = seeded_frame();
  switch (kind) {
    case 0:
      return rand_se3(framed, a, b);
    case 1: {
      Eigen::Vector3d v = vec<3>(1.7);
      return framed ? SO3::exp(v, a, b) : SO3::exp(v);
    }
    case 2: {
      std::vector<SE3> pts;
      uint32_t n = std::max(1u, curve_points());
      for (uint32_t i = 0; i < n; i++) {
        if (i && standing()) pts.push_back(SE3(pts.back()));
        else pts.push_back(rand_se3(framed, a, b));
      }
      return DCurve<SE3>(pts);
    }
    case 3:
      return rand_tcurve(rand_start(), 1);
    case 4: {
      int64_t s = (int64_t)(sim::entropy64() % 4000000000u) - 2000000000;
      resim::time::Timestamp t0{std::chrono::seconds(s) +
                                std::chrono::nanoseconds(sim::entropy64() % 1000000000u)};
      static const int64_t odd[] = {0, -1, 1, 1000000000, -1000000000, 999999999};
      TCurve<SE3> c = rand_tcurve(0.0, 0);
      if (!c.control_pts().empty() && sim::entropy64() % 8 == 0) t0 = resim::time::Timestamp{std::chrono::nanoseconds(odd[sim::entropy64() % 6])};
      return Trajectory(c, t0);
    }
    case 5:
      return a;
    default:
      distinct = true;
      return FramedVector(vec<3>(50.0), a);
  }
}

std::string describe(const Payload &p) {
  static const char *n[] = {"SE3", "SO3", "DCurve", "TCurve", "Trajectory", "Frame", "FramedVector"};
  return n[p.index()];
}

bool decode_update(const std::string &body, std::vector<Decoded> &out, std::string &why) {
  Wire w(body);
  while (w.more()) {
    uint64_t k = w.varint();
    if (k != ((1 << 3) | 2)) {
      why = "unknown field in the update";
      return false;
    }
    std::string b = w.bytes();
    Wire q(b);
    Decoded d;
    bool bad = false;
    while (q.more()) {
      uint64_t kk = q.varint();
      int f = (int)(kk >> 3), wt = (int)(kk & 7);
      if (f == 1 && wt == 2) {
        d.id = dec_uuid(q.bytes(), &bad);
        d.has_id = true;
      } else if (f >= 2 && f <= 8 && wt == 2) {
        d.raw = q.bytes();
        d.kind = d.kind == -1 ? f - 2 : -2;
      } else if (f == 11 && wt == 2) {
        d.name = q.bytes();
      } else if (f == 12 && wt == 2) {
        d.file = q.bytes();
      } else if (f == 13 && wt == 0) {
        d.line = (long long)q.varint();
      } else {
        why = "unknown field in a primitive";
        return false;
      }
    }
    if (q.bad || bad) {
      why = "malformed primitive";
      return false;
    }
    out.push_back(d);
  }
  if (w.bad) why = "malformed update";
  return !w.bad;
}

bool same(const Payload &p, const Decoded &d, std::string &why) {
  if (d.kind != (int)p.index()) {
    why = "wrong kind of payload";
    return false;
  }
  bool bad = false;
  switch (p.index()) {
    case 0:
      return same_group(std::get<SE3>(p), dec_group(d.raw, &bad), why) && !bad;
    case 1:
      return same_group(std::get<SO3>(p), dec_group(d.raw, &bad), why) && !bad;
    case 2: {
      const auto &c = std::get<DCurve<SE3>>(p);
      Wire w(d.raw);
      size_t i = 0;
      while (w.more()) {
        uint64_t k = w.varint();
        if (k != ((1 << 3) | 2)) {
          w.skip((int)(k & 7));
          continue;
        }
        Group g = dec_group(w.bytes(), &bad);
        if (i >= c.control_pts().size()) {
          why = "too many control points";
          return false;
        }
        if (!same_group(*c.control_pts()[i].ref_from_control, g, why)) return false;
        i++;
      }
      if (i != c.control_pts().size()) {
        why = "control points are missing";
        return false;
      }
      return !w.bad && !bad;
    }
    case 3:
      return same_tcurve(std::get<TCurve<SE3>>(p), d.raw, why);
    case 4: {
      const auto &t = std::get<Trajectory>(p);
      Wire w(d.raw);
      std::string ts, cv;
      while (w.more()) {
        uint64_t k = w.varint();
        if (k == ((1 << 3) | 2)) ts = w.bytes();
        else if (k == ((2 << 3) | 2)) cv = w.bytes();
        else w.skip((int)(k & 7));
      }
      Wire q(ts);
      int64_t sec = 0, nano = 0;
      while (q.more()) {
        uint64_t k = q.varint();
        if (k == (1 << 3)) sec = (int64_t)q.varint();
        else if (k == (2 << 3)) nano = (int64_t)q.varint();
        else q.skip((int)(k & 7));
      }
      auto want = t.start_time().time_since_epoch();
      auto got = std::chrono::seconds(sec) + std::chrono::nanoseconds(nano);
      if (w.bad || q.bad || std::chrono::duration_cast<std::chrono::nanoseconds>(want) != got) {
        why = "start time differs";
        return false;
      }
      return same_tcurve(t.curve(), cv, why);
    }
    case 5:
      if (dec_frame(d.raw, &bad) != std::get<Frame>(p).id().to_string() || bad) {
        why = "frame differs";
        return false;
      }
      return true;
    default: {
      const auto &v = std::get<FramedVector>(p);
      Wire w(d.raw);
      std::vector<double> a;
      std::string f;
      while (w.more()) {
        uint64_t k = w.varint();
        int n = (int)(k >> 3), wt = (int)(k & 7);
        if (n == 1) dec_doubles(w, wt, a);
        else if (n == 2 && wt == 2) f = dec_frame(w.bytes(), &bad);
        else w.skip(wt);
      }
      if (w.bad || bad || !near_vec(a, v)) {
        why = "vector values differ";
        return false;
      }
      if (f != v.frame().id().to_string()) {
        why = "vector frame differs";
        return false;
      }
      return true;
    }
  }
}

}  // namespace payload
