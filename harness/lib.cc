// Library objects under threads, failing allocations, damaged messages and restarts (C14-C19).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <set>

#include "lib_ops.h"
#include "sim/sim.h"

namespace {
using ops::Rng;

std::string key_hex(const std::string &s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    r += b;
  }
  return r;
}

void schedule_config() {
  // from long slices to a switch at almost every access
  switch (sim::choose(4)) {
    case 0:
      sim::cfg.switch_num = 1;
      sim::cfg.switch_den = 4;
      break;
    case 1:
      sim::cfg.mem_num = 8;
      sim::cfg.mem_log2max = 12;
      break;
    case 2:
      sim::cfg.mem_num = 15;
      sim::cfg.mem_log2max = 7;
      break;
    default:
      sim::cfg.mem_num = 15;
      sim::cfg.mem_log2max = 10;
  }
}

// ================================================================== C14
void identifiers() {
  sim::cfg.races = sim::choose(2);
  sim::cfg.rand_num = sim::choose(2) ? 2 : 0;
  schedule_config();
  std::map<std::string, std::string> seen;
  auto take = [&](const std::string &ids, const char *who) {
    sim::Quiet q;
    for (size_t i = 0; i + 17 <= ids.size();) {
      if (ids[i] == '!') {
        size_t e = ids.find('\0', i);
        sim::violation("C14", "bad-identifier", "%s: %s", who, ids.substr(i + 1, e - i - 1).c_str());
        return;
      }
      std::string id = ids.substr(i + 1, 16);
      i += 17;
      auto r = seen.emplace(id, who);
      if (!r.second) {
        sim::violation("C14", "duplicate", "identifier %s generated by %s and again by %s", key_hex(id).c_str(),
                       r.first->second.c_str(), who);
        return;
      }
      sim::count("identifiers");
    }
  };
  auto some = [](int n, std::string *out) {
    for (int i = 0; i < n; i++) {
      int how, jump;
      {
        sim::Quiet q;
        how = (int)sim::choose(ops::IDENTIFIER_KINDS);
        jump = (int)sim::choose(8);
        if (jump == 7) {
          int64_t d = ((int64_t)sim::choose(4001) - 2000) * (int64_t)sim::MS;
          sim::jump_realtime(d);
          sim::count("fault.clock-jump");
          sim::note("wall clock jumps by %lld ms", (long long)(d / (int64_t)sim::MS));
        }
      }
      std::string id = ops::new_identifier(how);
      sim::Quiet q;
      if (id[0] == '!' && id.size() != 16) {
        *out += id + '\0';
        return;
      }
      *out += '.' + id;
      sim::note("new identifier %s", key_hex(id).c_str());
    }
  };
  // one process: some identifiers, then threads
  bool first = true, echoes = sim::choose(4) == 3;
  auto process = [&]() {
    std::string all;
    {
      sim::Quiet q;
      if (echoes) sim::entropy_begin(!first && sim::choose(2));
    }
    some((int)sim::range(0, 2), &all);
    int n = (int)sim::choose(4);
    if (n) {
      auto *parts = new std::vector<std::string>((size_t)n);
      std::vector<int> t;
      for (int i = 0; i < n; i++) {
        int k = (int)sim::range(1, 4);
        t.push_back(sim::spawn(0, "thread", [=] { some(k, &(*parts)[(size_t)i]); }));
      }
      for (int x : t) sim::join(x);
      for (auto &p : *parts) all += p;
    }
    some((int)sim::range(0, 2), &all);
    return all;
  };
  int before = (int)sim::range(1, 3);
  for (int i = 0; i < before && !sim::violated(); i++) {
    static const char *names[] = {"process A", "process B", "process C"};
    take(sim::fresh_process(names[i], process), names[i]);
    sim::count("processes");
    first = false;
  }
  if (sim::violated()) return;
  take(process(), "process D");
  // children forked from a process that has generated identifiers before
  int after = (int)sim::choose(3);
  for (int i = 0; i < after && !sim::violated(); i++) {
    static const char *names[] = {"forked child E", "forked child F"};
    take(sim::fresh_process(names[i], process), names[i]);
    sim::count("processes");
  }
  if (!sim::violated()) {
    std::string tail;
    some(2, &tail);
    take(tail, "process D, later");
  }
}

// ================================================================== C15
struct Item {
  int64_t t;
  uint64_t id;
  std::string text;
  std::weak_ptr<ops::Token> alive;
};
struct Model {
  std::unique_ptr<ops::Schedule> s;
  std::vector<Item> want;  // in the order they must come out
  uint64_t inserted = 0;
};
const int64_t MINT = std::numeric_limits<int64_t>::min(), MAXT = std::numeric_limits<int64_t>::max();

bool schedule_matches(Model &m, const char *when) {
  if (m.s->size() != m.want.size()) {
    sim::violation("C15", "size", "%s: size %zu, expected %zu", when, m.s->size(), m.want.size());
    return false;
  }
  if (m.want.empty()) return true;
  int64_t t;
  uint64_t id;
  std::string text;
  m.s->top(&t, &id, &text);
  if (t != m.want[0].t || id != m.want[0].id || text != m.want[0].text) {
    sim::violation("C15", "order", "%s: the front event is (%lld, #%llu '%s'), expected (%lld, #%llu '%s')", when,
                   (long long)t, (unsigned long long)id, text.c_str(), (long long)m.want[0].t,
                   (unsigned long long)m.want[0].id, m.want[0].text.c_str());
    return false;
  }
  return true;
}
void event_schedule() {
  std::vector<Model> ms(1);
  static const int kinds[] = {0, 1, 0, 1, 2};
  int kind = kinds[sim::choose(5)];
  ms[0].s = ops::make_schedule(kind);
  bool faults = sim::choose(2);
  uint32_t spread = 1u << sim::choose(8);
  uint32_t push = 3 + sim::choose(5);  // of 8
  int steps = kind == 1 ? (int)sim::range(1, 420) : (int)sim::range(1, 160);
  uint64_t next = 1;
  // Now and then a long life: many short-lived events pass while others wait.
  int churns = kind != 1 && sim::choose(kind ? 80 : 400) == 0 ? (int)sim::range(1, 3) : 0;
  if (churns && steps < 40) steps = 40;
  for (int i = 0; i < steps; i++) {
    Model &m = ms[sim::choose((uint32_t)ms.size())];
    if (churns && i % 16 == 8) {
      churns--;
      static const uint64_t N[] = {300, 33000, 66000, 132000};
      uint64_t n = N[sim::choose(4)];
      uint64_t left = m.s->limit() - m.inserted;
      if (n > left) n = left - std::min<uint64_t>(left, sim::choose(12));
      int64_t t = m.want.empty() ? 0 : m.want[0].t;
      bool fills = sim::choose(3) == 2;
      if (t > MINT + 10) {
        t--;
        sim::note("%llu events pass through", (unsigned long long)n);
        uint64_t bad = fills ? m.s->fill(n, t, 1 + sim::choose(5)) : m.s->churn(n, t);
        m.inserted += n;
        sim::count("churn");
        if (bad) {
          sim::violation("C15", "order", "%llu of %llu events did not come to the front when they were the earliest",
                         (unsigned long long)bad, (unsigned long long)n);
          return;
        }
        if (!schedule_matches(m, "after many events have passed")) return;
      }
    }
    uint32_t what = sim::choose(8);
    if (what == 7 && push > 4 && sim::choose(12) == 11 && ms.size() < 3) {
      Model c;
      c.s = m.s->copy();
      c.want = m.want;
      c.inserted = m.inserted;
      for (auto &w : c.want) w.alive.reset();
      sim::note("copy the schedule (%zu events)", c.want.size());
      // the copies share tokens, so ownership is no longer followed
      for (auto &w : m.want) w.alive.reset();
      ms.push_back(std::move(c));
      sim::count("copies");
      continue;
    }
    if (what < push || m.want.empty()) {
      int64_t t;
      switch (sim::choose(12)) {
        case 10:
          t = MINT + (int64_t)sim::choose(2);
          break;
        case 11:
          t = MAXT - (int64_t)sim::choose(2);
          break;
        case 9:
          t = -(int64_t)sim::choose(spread);
          break;
        default:
          t = (int64_t)sim::choose(spread) * 1000000000ll;
      }
      Item it;
      it.t = t;
      it.id = next++;
      it.text = sim::choose(2) ? "short" : "a payload too long for the small string buffer " + std::to_string(it.id);
      auto token = std::make_shared<ops::Token>();
      token->id = it.id;
      it.alive = token;
      uint32_t k = faults && sim::choose(3) == 2 ? 1 + sim::choose(5) : 0;
      bool threw = false, fired = false;
      std::string error;
      if (k) sim::alloc_fault_arm(k);
      try {
        m.s->insert(t, std::move(token), it.text);
      } catch (const std::exception &e) {
        threw = true;
        if (k) sim::alloc_fault_disarm();
        error = e.what();
      }
      if (k) fired = sim::alloc_fault_disarm();
      sim::note("insert #%llu at %lld%s%s", (unsigned long long)it.id, (long long)t, fired ? " (allocation fails)" : "",
                threw ? " -> throws" : "");
      sim::event("insert", (uint64_t)t, threw);
      if (threw) {
        if (!fired && m.inserted < m.s->limit()) {
          sim::violation("C15", "refused", "insertion %llu of at most %llu was refused: %s",
                         (unsigned long long)m.inserted + 1, (unsigned long long)m.s->limit(), error.c_str());
          return;
        }
        sim::count(fired ? "insert.no-memory" : "insert.exhausted");
        if (!it.alive.expired()) {
          sim::violation("C15", "kept", "the payload of a failed insertion is still held");
          return;
        }
      } else {
        m.inserted++;
        auto at = std::upper_bound(m.want.begin(), m.want.end(), t, [](int64_t x, const Item &y) { return x < y.t; });
        m.want.insert(at, it);
        sim::count("insert");
        if (ms.size() == 1 && it.alive.expired()) {
          sim::violation("C15", "lost", "the payload of event #%llu was dropped", (unsigned long long)it.id);
          return;
        }
      }
      if (!schedule_matches(m, threw ? "after a failed insertion" : "after an insertion")) return;
    } else {
      sim::note("pop (expect #%llu)", (unsigned long long)m.want[0].id);
      sim::event("pop");
      m.s->pop();
      sim::count("pop");
      std::weak_ptr<ops::Token> w = m.want[0].alive;
      m.want.erase(m.want.begin());
      if (!w.expired()) {
        sim::violation("C15", "kept", "a popped event is still held");
        return;
      }
      if (!schedule_matches(m, "after a pop")) return;
    }
  }
  for (auto &m : ms)
    while (!m.want.empty()) {
      if (!schedule_matches(m, "draining")) return;
      m.s->pop();
      m.want.erase(m.want.begin());
      if (!schedule_matches(m, "draining")) return;
    }
}

// ================================================================== C16
void failed_append() {
  struct Use {
    std::unique_ptr<ops::Curve> c;
    std::vector<std::pair<uint64_t, double>> given;
    double t = 0;
  };
  std::vector<Use> us;
  int n = (int)sim::range(1, 2);
  bool faults = sim::choose(4) != 0;
  for (int i = 0; i < n; i++) {
    Use u;
    int kind = (int)sim::choose(ops::CURVE_KINDS);
    bool framed = sim::choose(3) != 2;
    u.c = ops::make_curve(kind, sim::entropy64(), framed || kind == 3);
    u.t = (double)sim::choose(100) - 50;
    sim::note("curve %d is of kind %d%s", i, kind, framed ? ", framed" : "");
    us.push_back(std::move(u));
  }
  // Now and then a long one.
  bool lengthy = sim::choose(150) == 149;
  if (lengthy) {
    static const uint32_t lengths[] = {30, 62, 126, 254};
    Use &u = us[0];
    uint32_t n = lengths[sim::choose(4)] + sim::choose(4);
    for (uint32_t a = 0; a < n; a++) {
      uint64_t key = sim::entropy64();
      u.t += 0.5;
      u.c->append(key, u.t, 0);
      u.given.push_back({key, u.t});
    }
    sim::note("curve 0 has %u points", n);
    sim::count("long");
  }
  auto rebuilt = [&](Use &u) {
    auto f = u.c->fresh();
    for (auto &p : u.given) f->append(p.first, p.second, 0);
    return f->digest(4);
  };
  int steps = (int)sim::range(1, lengthy ? 6 : 24);
  for (int i = 0; i < steps; i++) {
    size_t j = sim::choose((uint32_t)us.size());
    Use &u = us[j];
    uint32_t what = sim::choose(16);
    if (what == 15 && us.size() < 4) {
      Use v;
      v.c = u.c->copy();
      v.given = u.given;
      v.t = u.t;
      us.push_back(std::move(v));
      sim::note("copy curve %zu", j);
      sim::count("copies");
      continue;
    }
    if (what == 15) {
      size_t o = sim::choose((uint32_t)us.size());
      if (u.c->assign(*us[o].c)) {
        u.given = us[o].given;
        u.t = us[o].t;
        sim::note("assign curve %zu to %zu", o, j);
        double x = (double)sim::choose(5) / 4;
        auto f = u.c->fresh();
        for (auto &p : u.given) f->append(p.first, p.second, 0);
        if (u.c->at(x) != f->at(x)) {
          sim::violation("C16", "changed", "after an assignment curve %zu differs from one built from its points", j);
          return;
        }
        sim::count("assignments");
      }
    }
    bool several = what == 14 || what == 13;
    uint32_t k = faults && sim::choose(2) ? 1 + sim::choose(several ? 14 : 9) : 0;
    std::string before = u.c->digest(4);
    bool threw = false, fired = false;
    std::string error;
    if (several) {
      std::vector<uint64_t> keys;
      std::vector<double> ts;
      uint32_t m = 2 + sim::choose(2);
      double t = u.t;
      for (uint32_t a = 0; a < m; a++) {
        keys.push_back(sim::entropy64());
        t += 0.25 + (double)sim::choose(8) / 4;
        ts.push_back(t);
      }
      bool bad_order = u.c->timed() && sim::choose(4) == 3;
      if (bad_order) ts[m - 1] = ts[m - 2] - 0.1;
      if (k) sim::alloc_fault_arm(k);
      try {
        u.c->append_list(keys, ts);
      } catch (const std::exception &e) {
        threw = true;
        if (k) sim::alloc_fault_disarm();
        error = e.what();
      }
      if (k) fired = sim::alloc_fault_disarm();
      sim::note("append %u points to curve %zu%s%s%s", m, j, bad_order ? ", the last too early" : "",
                fired ? " (an allocation fails)" : "", threw ? " -> throws" : "");
      std::string bad = u.c->broken();
      if (!bad.empty()) {
        sim::violation("C16", "out-of-step", "after appending several points%s: %s", threw ? " failed" : "",
                       bad.c_str());
        return;
      }
      // a prefix of the points has been added
      size_t had = u.given.size(), got = u.c->points();
      if (got < had || got > had + m || (!threw && got != had + m)) {
        sim::violation("C16", "points", "%zu control points after appending %u to %zu", got, m, had);
        return;
      }
      if (!threw && bad_order) {
        sim::violation("C16", "accepted", "a point earlier than the last one was accepted");
        return;
      }
      if (threw && !fired && !bad_order) {
        sim::violation("C16", "refused", "valid points were refused: %s", error.c_str());
        return;
      }
      for (size_t a = 0; a < got - had; a++) {
        u.given.push_back({keys[a], ts[a]});
        u.t = ts[a];
      }
      if (u.c->digest(4) != rebuilt(u)) {
        sim::violation("C16", "changed", "after appending several points%s the curve differs from one built from the "
                       "same points", threw ? " failed" : "");
        return;
      }
      sim::count("append.list");
      continue;
    }
    // one point, perhaps not acceptable
    uint64_t key = sim::entropy64();
    // vehicles also stand still, or come back
    if (!u.given.empty() && sim::choose(6) == 5)
      key = u.given[sim::choose(2) ? u.given.size() - 1 : sim::choose((uint32_t)u.given.size())].first;
    double t = u.t + 0.25 + (double)sim::choose(8) / 4;
    int flaw = 0;
    bool acceptable = true, sure = true;
    if (!u.given.empty()) {
      switch (sim::choose(8)) {
        case 7:
          flaw = 1;
          acceptable = false;
          break;
        case 6:
          flaw = 2;
          acceptable = false;
          break;
        case 5:
          if (u.c->timed()) {
            static const double back[] = {0, 0.5, 1e-9, 1e6};
            uint32_t b = sim::choose(6);
            t = b < 4 ? u.t - back[b] : b == 4 ? std::numeric_limits<double>::quiet_NaN() : -HUGE_VAL;
            acceptable = false;
          }
          break;
        case 4:
          flaw = 3;
          acceptable = false;
          break;
        default:
          break;
      }
    }
    // foreign frames only mean something to framed curves
    auto f = u.c->fresh();
    {
      // is this curve framed?  an unframed point is then a flaw, otherwise foreign frames do not exist
      std::string a, b;
      auto g = u.c->fresh();
      f->append(1, 0, 0);
      g->append(1, 0, 3);
      if (f->digest(1) == g->digest(1)) {
        if (flaw) {
          flaw = 0;
          acceptable = true;
        }
      }
    }
    if (k) sim::alloc_fault_arm(k);
    try {
      u.c->append(key, t, flaw);
    } catch (const std::exception &e) {
      threw = true;
      if (k) sim::alloc_fault_disarm();
      error = e.what();
    }
    if (k) fired = sim::alloc_fault_disarm();
    sim::note("append %s point (flaw %d) at %.2f to curve %zu%s%s", acceptable ? "an acceptable" : "an unacceptable", flaw, t,
              j, fired ? " (an allocation fails)" : "", threw ? " -> throws" : "");
    sim::event("append", key, threw);
    std::string bad = u.c->broken();
    if (!bad.empty()) {
      sim::violation("C16", "out-of-step", "after %s append: %s", threw ? "a failed" : "an", bad.c_str());
      return;
    }
    if (threw) {
      sim::count(fired ? "append.no-memory" : "append.unacceptable");
      if (!fired && acceptable) {
        sim::violation("C16", "refused", "a valid point was refused: %s", error.c_str());
        return;
      }
      if (u.c->digest(4) != before) {
        sim::violation("C16", "changed", "a failed append (%s) changed the object, which had %zu points and has %zu",
                       fired ? "no memory" : error.c_str(), u.given.size(), u.c->points());
        return;
      }
    } else {
      if (!acceptable && sure) {
        sim::violation("C16", "accepted", "an unacceptable point (flaw %d) was accepted", flaw);
        return;
      }
      sim::count("append");
      u.given.push_back({key, t});
      u.t = t;
      if (u.c->points() != u.given.size() || u.c->digest(4) != rebuilt(u)) {
        sim::violation("C16", "changed", "after an append the object differs from one built from the same points");
        return;
      }
    }
    // the others are untouched
    size_t o = sim::choose((uint32_t)us.size());
    if (us[o].c->digest(4) != rebuilt(us[o])) {
      sim::violation("C16", "changed", "curve %zu differs from one built from its own points", o);
      return;
    }
  }
}

// ================================================================== C17
void turn() { sim::yield(); }

void concurrent_readers() {
  sim::cfg.races = true;
  schedule_config();
  uint64_t key = sim::entropy64();
  int readers = (int)sim::range(2, 4);
  int nq = ops::query_count();
  bool focus = sim::choose(2);
  int base = (int)sim::choose((uint32_t)nq);
  bool faults = sim::choose(4) == 3;
  struct Step {
    int q;
    double x;
    uint32_t fail;
  };
  auto *plan = new std::vector<std::vector<Step>>((size_t)readers);
  for (auto &p : *plan) {
    int n = (int)sim::range(1, 6);
    for (int i = 0; i < n; i++) {
      int q = focus ? (base + (int)sim::choose(3)) % nq : (int)sim::choose((uint32_t)nq);
      double x = (double)sim::choose(9) / 8;
      // two questions can be almost the same
      switch (sim::choose(6)) {
        case 4:
          x *= 1 - 1e-7;
          break;
        case 5:
          x *= 1 - 1e-3;
          break;
      }
      p.push_back({q, x, faults && sim::choose(2) ? 1 + sim::choose(6) : 0});
    }
  }
  // the lone reader: its own objects, and a process of its own
  std::vector<std::string> alone;
  for (int i = 0; i < readers; i++)
    alone.push_back(sim::fresh_process("alone", [=] {
      auto lone = ops::make_bank(key);
      std::string out;
      for (auto &s : (*plan)[(size_t)i]) {
        std::string a = ops::query(*lone, s.q, s.x);
        uint64_t n = a.size();
        out.append((const char *)&n, 8);
        out += a;
      }
      return out;
    }));
  auto *got = new std::vector<std::vector<std::string>>((size_t)readers);
  {
    auto bank = ops::make_bank(key);
    std::vector<int> t;
    for (int i = 0; i < readers; i++)
      t.push_back(sim::spawn(0, "reader", [=] {
        for (auto &s : (*plan)[(size_t)i]) {
          sim::note("%s at %.3f", ops::query_name(s.q), s.x);
          sim::yield();
          // (protobuf itself is not safe against failing allocations)
          if (s.fail && strncmp(ops::query_name(s.q), "pack", 4) && strncmp(ops::query_name(s.q), "unpack", 6)) {
            // memory runs out during the query: whatever that query gives, the next is as any other
            sim::alloc_fault_arm(s.fail);
            try {
              ops::query(*bank, s.q, s.x);
            } catch (const std::exception &) {
            }
            sim::alloc_fault_disarm();
            sim::note("%s at %.3f, after allocation %u failed", ops::query_name(s.q), s.x, s.fail);
          }
          std::string r = ops::query(*bank, s.q, s.x);
          sim::Quiet q;
          (*got)[(size_t)i].push_back(std::move(r));
          sim::count("queries");
        }
      }));
    for (int x : t) sim::join(x);
  }
  if (sim::violated()) return;
  for (int i = 0; i < readers; i++) {
    const std::string &all = alone[(size_t)i];
    size_t at = 0;
    for (size_t j = 0; j < (*plan)[(size_t)i].size(); j++) {
      auto &s = (*plan)[(size_t)i][j];
      uint64_t n = ~0ull;
      if (at + 8 <= all.size()) memcpy(&n, all.data() + at, 8);
      at += 8;
      if (n > all.size() || all.compare(at, n, (*got)[(size_t)i][j])) {
        sim::violation("C17", "different-answer", "reader %d's query %s at %.7f answered differently from a lone reader's",
                       i, ops::query_name(s.q), s.x);
        return;
      }
      at += n;
    }
  }
}

// ================================================================== C19
void isolation() {
  sim::cfg.races = true;
  schedule_config();
  int n = (int)sim::range(2, 4);
  auto *keys = new std::vector<uint64_t>;
  auto *steps = new std::vector<int>;
  for (int i = 0; i < n; i++) {
    keys->push_back(sim::entropy64());
    steps->push_back((int)sim::range(4, 40));
  }
  if (sim::choose(3) == 2) (*keys)[1] = (*keys)[0];  // two threads doing the same
  // each alone, in a process of its own, at another time
  std::vector<std::vector<std::string>> alone;
  for (int i = 0; i < n; i++) {
    std::string s = sim::fresh_process("alone", [=] {
      {
        sim::Quiet q;
        sim::jump_realtime((int64_t)sim::range(0, 100000) * (int64_t)sim::MS);
        sim::sleep_ns((uint64_t)sim::range(0, 5000) * sim::MS);
      }
      std::string out;
      for (auto &l : ops::program((*keys)[(size_t)i], (*steps)[(size_t)i], [] {})) out += l + "\n";
      return out;
    });
    std::vector<std::string> lines;
    size_t p = 0;
    while (p < s.size()) {
      size_t e = s.find('\n', p);
      lines.push_back(s.substr(p, e - p));
      p = e + 1;
    }
    alone.push_back(lines);
  }
  auto *got = new std::vector<std::vector<std::string>>((size_t)n);
  std::vector<int> t;
  for (int i = 0; i < n; i++)
    t.push_back(sim::spawn(0, "user", [=] {
      auto l = ops::program((*keys)[(size_t)i], (*steps)[(size_t)i], turn);
      sim::Quiet q;
      (*got)[(size_t)i] = std::move(l);
    }));
  for (int x : t) sim::join(x);
  for (int i = 0; i < n; i++) {
    auto &g = (*got)[(size_t)i];
    auto &a = alone[(size_t)i];
    sim::count("program steps", g.size());
    for (size_t j = 0; j < g.size() || j < a.size(); j++) {
      std::string x = j < g.size() ? g[j] : "(nothing)", y = j < a.size() ? a[j] : "(nothing)";
      if (x.rfind("BAD ", 0) == 0 || y.rfind("BAD ", 0) == 0) {
        sim::violation("C19", "influenced", "user %d, step %zu: %s", i, j, (x.rfind("BAD ", 0) == 0 ? x : y).c_str() + 4);
        return;
      }
      if (x != y) {
        sim::violation("C19", "influenced", "user %d, step %zu: '%s', but alone '%s'", i, j, x.c_str(), y.c_str());
        return;
      }
    }
  }
}

// ================================================================== C18
struct Field {
  uint64_t tag = 0;
  int wt = 0;
  std::string head, body;  // head: tag (and length is recomputed for wt 2)
};
void put_varint(std::string &s, uint64_t v) {
  while (v > 127) {
    s += (char)(v | 128);
    v >>= 7;
  }
  s += (char)v;
}
bool split(const std::string &s, std::vector<Field> &out) {
  size_t p = 0;
  auto varint = [&](uint64_t *v) {
    *v = 0;
    for (int sh = 0; sh < 64; sh += 7) {
      if (p >= s.size()) return false;
      unsigned char c = (unsigned char)s[p++];
      *v |= (uint64_t)(c & 127) << sh;
      if (!(c & 128)) return true;
    }
    return false;
  };
  while (p < s.size()) {
    Field f;
    size_t b = p;
    uint64_t n;
    if (!varint(&f.tag) || (f.tag >> 3) == 0 || (f.tag >> 3) > 100) return false;
    f.wt = (int)(f.tag & 7);
    f.head = s.substr(b, p - b);
    b = p;
    switch (f.wt) {
      case 0:
        if (!varint(&n)) return false;
        f.body = s.substr(b, p - b);
        break;
      case 1:
        if (s.size() - p < 8) return false;
        f.body = s.substr(p, 8);
        p += 8;
        break;
      case 2:
        if (!varint(&n) || n > s.size() - p) return false;
        f.body = s.substr(p, n);
        p += n;
        break;
      default:
        return false;
    }
    out.push_back(f);
  }
  return true;
}
std::string joined(const std::vector<Field> &fs) {
  std::string s;
  for (auto &f : fs) {
    s += f.head;
    if (f.wt == 2) put_varint(s, f.body.size());
    s += f.body;
  }
  return s;
}
double odd_double() {
  static const double odd[] = {std::nan(""), INFINITY, -INFINITY, 0.0, -0.0, 1e308, -1e308, 5e-324, 1e-9, 3.14159265358979,
                               1e9, -1.0, 2.0, 6.5};
  return odd[sim::choose(sizeof odd / sizeof *odd)];
}
void damage_tree(std::string &s, int depth) {
  std::vector<Field> fs;
  if (s.empty() || !split(s, fs) || fs.empty()) {
    // not a message: text or packed numbers
    if (s.size() >= 8 && s.size() % 8 == 0 && sim::choose(2)) {
      size_t n = s.size() / 8, i = sim::choose((uint32_t)n);
      switch (sim::choose(4)) {
        case 0: {
          double d = odd_double();
          memcpy(&s[i * 8], &d, 8);
          sim::note("a number becomes %g", d);
          break;
        }
        case 1:
          s.erase(i * 8, 8);
          sim::note("a number is dropped");
          break;
        case 2:
          s.insert(i * 8, s.substr(i * 8, 8));
          sim::note("a number is repeated");
          break;
        default:
          s.clear();
          sim::note("all numbers are dropped");
      }
      sim::fault("damage.numbers");
      return;
    }
    if (s.empty()) {
      s = "x";
      sim::note("an empty field gets a byte");
    } else {
      size_t i = sim::choose((uint32_t)s.size());
      switch (sim::choose(4)) {
        case 0:
          s[i] = (char)sim::choose(256);
          sim::note("byte %zu of a field changes", i);
          break;
        case 1:
          s.resize(i);
          sim::note("a field is cut after %zu bytes", i);
          break;
        case 2:
          s += s.substr(0, i + 1);
          sim::note("a field grows by %zu bytes", i + 1);
          break;
        default:
          for (char &c : s)
            if (c != '-') c = '0';
          sim::note("a field becomes zeroes");
      }
    }
    sim::fault("damage.field");
    return;
  }
  size_t i = sim::choose((uint32_t)fs.size());
  if (fs[i].wt == 2 && depth < 8 && sim::choose(4) != 0) {
    damage_tree(fs[i].body, depth + 1);
    s = joined(fs);
    return;
  }
  switch (sim::choose(5)) {
    case 0:
      sim::note("field %llu is dropped at depth %d", (unsigned long long)(fs[i].tag >> 3), depth);
      fs.erase(fs.begin() + (long)i);
      sim::fault("damage.drop");
      break;
    case 1:
      sim::note("field %llu is duplicated at depth %d", (unsigned long long)(fs[i].tag >> 3), depth);
      fs.insert(fs.begin() + (long)i, fs[i]);
      sim::fault("damage.duplicate");
      break;
    case 2: {
      size_t j = sim::choose((uint32_t)fs.size());
      sim::note("fields %zu and %zu change places at depth %d", i, j, depth);
      std::swap(fs[i], fs[j]);
      sim::fault("damage.reorder");
      break;
    }
    case 3: {
      // another field's content
      size_t j = sim::choose((uint32_t)fs.size());
      if (fs[i].wt == fs[j].wt) fs[i].body = fs[j].body;
      sim::note("field %zu takes the content of %zu at depth %d", i, j, depth);
      sim::fault("damage.mix");
      break;
    }
    default:
      if (fs[i].wt == 1) {
        double d = odd_double();
        memcpy(&fs[i].body[0], &d, 8);
        sim::note("a number becomes %g at depth %d", d, depth);
      } else if (fs[i].wt == 0) {
        static const uint64_t odd[] = {0, 1, 999999999, 1000000000, 2147483647, 2147483648ull, 9223372036854775807ull,
                                       9223372036854775808ull, ~0ull, 9223372036ull, 253402300800ull};
        uint64_t v = odd[sim::choose(sizeof odd / sizeof *odd)];
        fs[i].body.clear();
        put_varint(fs[i].body, v);
        sim::note("an integer becomes %llu at depth %d", (unsigned long long)v, depth);
      } else {
        fs[i].body.clear();
        sim::note("field %llu is emptied at depth %d", (unsigned long long)(fs[i].tag >> 3), depth);
      }
      sim::fault("damage.value");
  }
  s = joined(fs);
}
std::string damage(std::string s) {
  int n = 1 + (int)(sim::choose(4) == 3) + (int)(sim::choose(8) == 7);
  for (int k = 0; k < n; k++) {
    if (s.empty()) break;
    switch (sim::choose(6)) {
      case 0:
        damage_tree(s, 0);
        break;
      case 1: {
        size_t i = sim::choose((uint32_t)s.size());
        s[i] = (char)(s[i] ^ (1 << sim::choose(8)));
        sim::note("a bit of byte %zu flips", i);
        sim::fault("damage.bit-flip");
        break;
      }
      case 2: {
        size_t i = sim::choose((uint32_t)s.size());
        s.resize(i);
        sim::note("cut after %zu bytes", i);
        sim::fault("damage.truncate");
        break;
      }
      case 3: {
        size_t i = sim::choose((uint32_t)s.size()), m = 1 + sim::choose((uint32_t)std::min<size_t>(64, s.size() - i));
        if (sim::choose(2))
          s.erase(i, m);
        else
          s.insert(i, s.substr(i, m));
        sim::note("%zu bytes at %zu dropped or repeated", m, i);
        sim::fault("damage.bytes");
        break;
      }
      default:
        damage_tree(s, 0);
    }
  }
  return s;
}

void decoder(int rounds) {
  for (int i = 0; i < rounds && !sim::violated(); i++) {
    int kind;
    uint64_t key;
    bool foreign;
    {
      sim::Quiet q;
      kind = (int)sim::choose(ops::MESSAGE_KINDS);
      key = sim::entropy64();
      foreign = sim::choose(16) == 15;
    }
    std::string good = ops::encode(kind, key);
    ops::Decoded first = ops::decode(kind, good);
    std::string bad;
    {
      sim::Quiet q;
      sim::count("decode.intact");
      if (!first.parsed || first.threw || !first.problem.empty()) {
        sim::violation("C18", "intact-refused", "an intact %s is not decoded: %s%s", ops::message_name(kind),
                       first.error.c_str(), first.problem.c_str());
        return;
      }
      sim::note("%s, %zu bytes", ops::message_name(kind), good.size());
      bad = damage(good);
      if (foreign) {
        bad.clear();
        for (uint32_t n = sim::choose(40); n; n--) bad += (char)sim::choose(256);
        sim::note("replaced by noise");
      }
      sim::event("decode", (uint64_t)kind, bad.size());
    }
    ops::Decoded d = ops::decode(kind, bad);
    {
      sim::Quiet q;
      sim::note("-> %s %s", !d.parsed ? "not parsed" : d.threw ? "throws" : "decoded", d.threw ? d.error.substr(0, 100).c_str() : "");
      sim::count(!d.parsed ? "decode.unparsable" : d.threw ? "decode.refused" : "decode.accepted");
      if (!d.problem.empty()) {
        sim::violation("C18", "invalid-object", "a damaged %s decodes to an invalid object: %s", ops::message_name(kind),
                       d.problem.c_str());
        return;
      }
    }
    ops::Decoded again = ops::decode(kind, good);
    {
      sim::Quiet q;
      if (!again.parsed || again.threw || !again.problem.empty() || again.digest != first.digest) {
        sim::violation("C18", "affected", "an intact %s decodes differently after a damaged one: %s%s",
                       ops::message_name(kind), again.error.c_str(), again.problem.c_str());
        return;
      }
    }
  }
}
void damaged_messages() {
  int n = (int)sim::choose(3);
  if (n == 0) {
    decoder((int)sim::range(1, 12));
    return;
  }
  sim::cfg.races = sim::choose(2);
  schedule_config();
  std::vector<int> t;
  for (int i = 0; i <= n; i++) {
    int rounds = (int)sim::range(1, 4);
    t.push_back(sim::spawn(0, "decoder", [=] { decoder(rounds); }));
  }
  for (int x : t) sim::join(x);
}
}  // namespace

namespace sim {
void harness_run() {
  // Half the runs use a checked heap that never reuses a block, the others the ordinary one, where
  // a new object may appear where an old one was.
  cfg.heap_check = property == "C18" ? choose(4) != 3 : choose(2) == 0;
  if (property == "C14") identifiers();
  if (property == "C15") event_schedule();
  if (property == "C16") failed_append();
  if (property == "C17") concurrent_readers();
  if (property == "C18") damaged_messages();
  if (property == "C19") isolation();
}
const char *harness_components() {
  return "{\"real\": [\"resim/utils/uuid\", \"resim/transforms\", \"resim/curves\", \"resim/actor/state\", "
         "\"resim/time/event_schedule\", \"resim/math/multivariate_gaussian\", \"all proto converters\", \"protobuf, "
         "libuuid, Eigen, glog\"], \"stub\": [\"thread scheduling\", \"clocks\", \"kernel random source\", \"heap "
         "allocator\", \"message transport\"]}";
}
}  // namespace sim
