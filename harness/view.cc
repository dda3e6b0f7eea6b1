// Workload and oracles for visualization (C06-C13).
#include <glog/logging.h>

#include <exception>
#include <memory>
#include <optional>
#include <set>

#include "payload.h"
#include "resim/auth/auth_client_interface.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view.hh"
#include "resim/visualization/view_update.hh"
#include "sim/internal.h"
#include "cpr/cpr.h"
#include "world.h"

using namespace sim;
using payload::Payload;
using resim::visualization::ViewClient;
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;

namespace {

// ---------------------------------------------------------------- history
struct Object {
  Payload payload;
  std::optional<std::string> name;
  std::string file;  // empty: not checked
  long long line = 0;
  std::string id;  // given by the harness (client mode), else empty
  int matched = 0;
};
struct Call {
  int idx = 0;
  int client = 0;  // process
  int task = 0;
  bool flush = false;
  std::vector<Object> objects;
  uint64_t inv_seq = 0, ret_seq = 0, inv_t = 0, ret_t = 0;
  bool ok = false, done = false;
  std::string what;
  // what the network saw (client mode: of this client; view mode: of this task)
  std::vector<int> reqs;
};
std::deque<Call> calls;
std::vector<std::vector<payload::Decoded>> decoded;  // per accepted update
std::vector<std::vector<int>> owner;                 // call of each accepted primitive
std::set<std::string> seen_ids;
std::deque<std::string> logged;
bool any_failure = false;  // some call failed or some request was not answered well
bool faultless = false;    // the whole run has no faults
std::string token_path;
int counter = 0;

struct Sink : google::LogSink {
  void send(google::LogSeverity, const char *, const char *, int, const struct ::tm *,
            const char *message, size_t len) override {
    Quiet q;
    logged.emplace_back(message, len);
  }
  void send(google::LogSeverity, const char *, const char *, int,
            const google::LogMessageTime &, const char *message, size_t len) override {
    Quiet q;
    logged.emplace_back(message, len);
  }
};
Sink sink;

bool was_logged(const std::string &text) {
  for (auto it = logged.rbegin(); it != logged.rend(); ++it)
    if (it->find(text) != std::string::npos) return true;
  return captured(1).find(text) != std::string::npos ||
         captured(2).find(text) != std::string::npos;
}
bool is_session_url(const world::Http &h) { return h.url == world::P.view_base + "/view/sessions"; }
bool is_view(const world::Http &h) { return h.url.rfind(world::P.view_base + "/", 0) == 0; }
bool good_session(const world::Http &h) {
  return is_session_url(h) && h.cli_status == 201 && !h.cli_error && !h.session.empty();
}

// ---------------------------------------------------------------- matching
// Decode newly accepted updates and find the object each primitive is.
void absorb() {
  while (decoded.size() < world::accepted.size()) {
    const world::Accepted &a = world::accepted[decoded.size()];
    std::vector<payload::Decoded> d;
    std::string why;
    if (!payload::decode_update(a.body, d, why))
      violation("C11,C08", "malformed-update", "the server received an update it cannot read: %s", why.c_str());
    std::vector<int> own;
    for (auto &p : d) {
      int found = -1, best = -1;
      std::string reason = "nothing like it was viewed";
      Object *obj = nullptr;
      // Equal objects are viewed by one thread only, one after the other: the one being viewed is meant.
      for (auto &c : calls) {
        for (auto &o : c.objects) {
          bool by_name = o.name && !o.name->empty() && *o.name == p.name;
          bool by_id = !o.id.empty() && o.id == p.id;
          std::string w;
          if (payload::same(o.payload, p, w)) {
            bool active = c.inv_seq <= a.seq && (!c.done || a.seq <= c.ret_seq);
            int score = 1000 * by_id + 100 * active + 20 * (world::http[(size_t)a.http].task == c.task) + 10 * !o.matched + 4 * (p.name == o.name.value_or("")) +
                        2 * (p.file == o.file && p.line == o.line);
            if (score > best) {
              best = score;
              found = c.idx;
              obj = &o;
            }
          } else if (by_name || by_id) {
            reason = w;
          }
        }
      }
      if (found < 0) {
        violation("C11,C08,C10", "wrong-content", "the server accepted a %s named %s that is not what was viewed: %s",
                  p.kind >= 0 ? "primitive" : "primitive without a single payload", world::show(p.name).c_str(),
                  reason.c_str());
      } else {
        obj->matched++;
        Call &c = calls[(size_t)found];
        if (p.name != obj->name.value_or(""))
          violation("C11,C08", "wrong-name", "name %s instead of %s", world::show(p.name).c_str(),
                    world::show(obj->name.value_or("")).c_str());
        if (!obj->file.empty() && (p.file != obj->file || p.line != obj->line))
          violation("C11,C08", "wrong-source", "source %s:%lld instead of %s:%lld", p.file.c_str(), p.line,
                    obj->file.c_str(), obj->line);
        if (!obj->id.empty() && p.id != obj->id)
          violation("C11,C08", "wrong-id", "id %s instead of %s", p.id.c_str(), obj->id.c_str());
        if (p.id.size() != 36 || p.id == "00000000-0000-0000-0000-000000000000")
          violation("C11", "bad-id", "the object's id is %s", world::show(p.id).c_str());
        if (obj->matched == 1 && !seen_ids.insert(p.id).second)
          violation("C11", "id-reused", "two objects have the id %s", p.id.c_str());
        if (obj->matched > 1)
          violation("C10", "delivered-twice", "the server accepted one view of a %s twice",
                    payload::describe(obj->payload).c_str());
        if (c.done && c.ret_seq < a.seq)
          violation("C10", "delivered-later", "an object was delivered after its own view had %s",
                    c.ok ? "returned" : "thrown");
      }
      own.push_back(found);
    }
    decoded.push_back(d);
    owner.push_back(own);
  }
}

// ---------------------------------------------------------------- per call
Call *begin(int client) {
  calls.emplace_back();
  Call &c = calls.back();
  c.idx = (int)calls.size() - 1;
  c.client = client;
  c.task = current_root();
  event("call.invoke", (uint64_t)c.idx);
  c.inv_seq = seq();
  c.inv_t = now();
  return &c;
}

bool client_mode = false;

void end(Call *c, bool ok, const std::string &what) {
  c->ok = ok;
  c->what = what;
  event("call.return", (uint64_t)c->idx, ok);
  c->ret_seq = seq();
  c->ret_t = now();
  c->done = true;
  note("call %d %s %s", c->idx, ok ? "succeeds" : "fails:", ok ? "" : what.substr(0, 120).c_str());
  count(ok ? "call.ok" : "call.failed");
  for (int i : world::requests_of(c->task, c->inv_seq, c->ret_seq))
    if (is_view(world::http[(size_t)i])) c->reqs.push_back(i);
  if (!ok) any_failure = true;
  absorb();

  // C10: exactly once when it returned.
  for (auto &o : c->objects) {
    if (ok && o.matched == 0)
      violation(client_mode ? "C08,C10" : "C10,C08", "not-delivered",
                "the call succeeded but the server never accepted its %s", payload::describe(o.payload).c_str());
  }
  // C08: accepted with exactly this content, and the link logged.
  if (ok && !c->flush) {
    const world::Http *acc = nullptr;
    for (size_t i = 0; i < world::accepted.size(); i++) {
      const world::Accepted &a = world::accepted[i];
      if (a.seq < c->inv_seq || a.seq > c->ret_seq) continue;
      const world::Http &h = world::http[(size_t)a.http];
      if (h.proc != c->client) continue;
      if (decoded[i].size() != c->objects.size()) continue;
      bool all = true;
      for (size_t k = 0; k < c->objects.size(); k++) {
        std::string w;
        all &= payload::same(c->objects[k].payload, decoded[i][k], w);
      }
      if (all && (!acc || h.cli_status == 201)) acc = &h;
    }
    if (!acc)
      violation("C08", "false-success", "success reported, but the server accepted no update with exactly this content during the call");
    else if (acc->ret_seq == 0 || acc->cli_status != 201)
      violation("C08", "false-success", "success reported although the client never saw the server accept the update (it saw %ld)",
                acc->cli_status);
    else {
      const std::string &link = acc->link;
      if (!was_logged(link))
        violation("C08", "link-not-logged", "success reported, but the link %s was not logged", link.c_str());
      count("probe.success_checked");
    }
  }
  // C06: a failed creation is reported and nothing is sent.
  bool tried = false, have = false;
  for (int i : c->reqs) {
    auto &h = world::http[(size_t)i];
    if (is_session_url(h)) {
      tried = true;
      have |= good_session(h);
    } else if (tried && !have) {
      violation("C06", "update-without-session", "an update was sent although creating the session had just failed");
    }
  }
  if (tried && !have) {
    count("probe.session_failed");
    if (ok) violation("C06,C08", "session-failure-hidden", "creating the session failed but the call reported success");
  }
}

// ---------------------------------------------------------------- whole log
// Checked for each client over everything it sent so far.
void check_log(int client) {
  std::string have;  // the session the client obtained
  std::string using_session;
  std::string last_id, last_body, last_bearer;
  long last_status = 0;
  int tries = 0;
  unsigned long long last_n = 0, groups = 0;
  int run401 = 0;
  const world::Http *prev = nullptr;
  for (auto &h : world::http) {
    if (h.proc != client || !is_view(h)) continue;
    if (is_session_url(h)) {
      if (!have.empty())
        violation("C06", "second-session", "a second session was requested although the client has %s", have.c_str());
      if (h.method != "POST") violation("C06", "session-method", "session requested with %s", h.method.c_str());
      if (h.ret_seq && good_session(h)) have = h.session;
      if (prev && is_session_url(*prev) && prev->cli_status == 401 && prev->ret_seq) run401++;
      else run401 = 0;
    } else {
      run401 = 0;
      if (h.session.empty() && h.srv_seq) {
        violation("C06", "bad-update-url", "update sent to %s", h.url.c_str());
      }
      std::string rest = h.url.substr(world::P.view_base.size());
      std::string want = "/view/sessions/" + have + "/updates/";
      if (have.empty())
        violation("C06", "update-before-session", "an update was sent to %s before a session had been obtained",
                  h.url.c_str());
      else if (rest.rfind(want, 0) != 0)
        violation("C06", "wrong-session", "an update was sent to %s; the server issued session %s", h.url.c_str(),
                  have.c_str());
      else {
        std::string id = rest.substr(want.size());
        bool canon = !id.empty() && id.size() < 20 && id.find_first_not_of("0123456789") == std::string::npos &&
                     (id == "0" || id[0] != '0');
        if (!canon) {
          violation("C07", "bad-number", "update number %s", world::show(id).c_str());
          return;
        }
        unsigned long long n = std::stoull(id);
        if (groups == 0 || id != last_id) {
          if (groups == 0 && n != 0)
            violation("C07", "first-number", "the first update is number %llu", n);
          if (groups > 0 && n <= last_n)
            violation("C07", "number-reused", "update %llu was sent after update %llu", n, last_n);
          if (groups > 0 && last_status == 401 && prev && prev->ret_seq && faultless)
            violation("C09", "not-repeated", "an update rejected with 401 was not repeated");
          if (faultless && n != groups)
            violation("C07", "number-skipped", "update %llu was sent where %llu was due, although nothing had failed", n, groups);
          groups++;
          tries = 1;
        } else {
          tries++;
          if (h.body != last_body)
            violation("C07", "number-reused", "update %llu was sent again with different content", n);
          if (last_status != 401)
            violation("C09,C07", "retry-without-401", "update %llu was repeated after status %ld", n, last_status);
          else if (tries > 2)
            violation("C09", "too-many-tries", "update %llu was sent %d times", n, tries);
          else if (h.bearer == last_bearer)
            violation("C09", "retry-with-same-token", "update %llu was repeated with the token that had just been rejected", n);
          else
            count("probe.retry_checked");
        }
        auto ct = h.header.find("Content-Type");
        if (ct == h.header.end() || ct->second != "application/octet-stream")
          violation("C08", "content-type", "update sent without its content type");
        last_n = n;
        last_id = id;
        last_body = h.body;
      }
    }
    last_bearer = h.bearer;
    last_status = h.ret_seq ? h.cli_status : 0;
    prev = &h;
  }
}

// Requests of one call (C09).
void check_call_requests(const Call &c) {
  int sess = 0, upd = 0;
  const world::Http *prev = nullptr;
  for (int i : c.reqs) {
    auto &h = world::http[(size_t)i];
    bool s = is_session_url(h);
    (s ? sess : upd)++;
    if (prev && is_session_url(*prev) && s) {
      if (prev->cli_status != 401)
        violation("C09", "session-retry-without-401", "creating the session was repeated after status %ld", prev->cli_status);
      else if (h.bearer == prev->bearer)
        violation("C09", "retry-with-same-token", "creating the session was repeated with the token that had just been rejected");
    }
    if (prev && !s && !is_session_url(*prev) && prev->cli_status == 401 && prev->url != h.url)
      violation("C07,C09", "retry-renumbered", "an update refused with 401 was repeated as %s instead of %s", h.url.c_str(),
                prev->url.c_str());
    if (!h.has_bearer || !world::tokens.count(h.bearer))
      violation("C09", "bad-bearer", "a request carries the bearer %s, which the server never issued", world::show(h.bearer).c_str());
    prev = &h;
  }
  if (sess > 2 || upd > 2)
    violation("C09", "too-many-tries", "one send made %d session requests and %d update requests", sess, upd);
  if (prev && prev->cli_status == 401 && !prev->cli_error && c.ok)
    violation("C09,C08", "false-success", "success reported although the last request was refused with 401");
}

// Is this the repetition of a request of the same call?
bool second_try(const world::Http &h) {
  uint64_t since = 0;
  for (auto &c : calls)
    if (c.client == h.proc && c.task == h.task && c.inv_seq < h.send_seq) since = c.inv_seq;
  for (int i = h.idx - 1; i >= 0; i--) {
    auto &g = world::http[(size_t)i];
    if (g.send_seq < since) return false;
    if (g.proc == h.proc && g.task == h.task && is_view(g)) return g.url == h.url && g.cli_status == 401;
  }
  return false;
}

// ---------------------------------------------------------------- client mode
struct RecordingAuth : resim::auth::AuthClientInterface {
  std::unique_ptr<resim::auth::DeviceCodeClient> real;
  int client;
  uint64_t last_refresh = 0;
  bool refused = false;  // the last refresh or get threw
  std::string get_jwt() override {
    try {
      std::string t = real->get_jwt();
      refused = false;
      return t;
    } catch (...) {
      refused = true;
      throw;
    }
  }
  void refresh() override {
    {
      Quiet q;
      event("auth.refresh");
      note("refresh");
      count("auth.refresh");
      const world::Http *last = nullptr;
      for (auto it = world::http.rbegin(); it != world::http.rend() && !last; ++it)
        if (it->proc == client && is_view(*it)) last = &*it;
      if (!last || last->cli_status != 401)
        violation("C09", "needless-refresh", "the token was discarded although the last answer was %ld",
                  last ? last->cli_status : 0L);
      else if (last_refresh > last->ret_seq)
        violation("C09", "refreshed-twice", "the token was refreshed twice after one rejection");
      else if (second_try(*last))
        violation("C09", "refreshed-twice", "the token was refreshed again after the repeated request was refused as well");
      last_refresh = seq();
    }
    try {
      real->refresh();
    } catch (...) {
      refused = true;
      throw;
    }
    refused = false;
  }
};

struct Client {
  int proc;
  std::unique_ptr<ViewClient> impl;
  RecordingAuth *auth = nullptr;
};
std::vector<std::unique_ptr<Client>> clients;
bool use_recorder = true;

Client *new_client() {
  Quiet q;
  clients.push_back(std::make_unique<Client>());
  Client *c = clients.back().get();
  c->proc = current_process();
  t_quiet--;
  auto impl = std::make_unique<ViewClient>(world::P.view_base);
  t_quiet++;
  if (use_recorder) {
    auto a = std::make_unique<RecordingAuth>();
    a->client = c->proc;
    a->real = std::make_unique<resim::auth::DeviceCodeClient>(resim::auth::DeviceCodeClient::Config{
        .server = world::P.auth_server,
        .client_id = world::P.client_id,
        .scope = world::P.scope,
        .audience = world::P.audience,
        .token_path = token_path});
    c->auth = a.get();
    impl->set_auth_client(std::move(a));
  }
  c->impl = std::move(impl);
  return c;
}

std::vector<std::string> names;
std::string make_name() {
  counter++;
  switch (choose(10)) {
    case 9: {
      // anything printable, from nothing on
      std::string s;
      for (uint32_t n = choose(24); n; n--) s += (char)(32 + choose(95));
      return s;
    }
    case 8:
      return choose(2) ? " padded " + std::to_string(counter) + " \n" : "Map/Lane " + std::to_string(counter) + "/";
    case 7: {
      std::string s = "zero " + std::to_string(counter);
      s += '\0';
      return s + " byte";
    }
    case 6:
      if (choose(16) == 15) return "huge" + std::string(70000 + choose(1000), 'y') + std::to_string(counter);
      return std::to_string(counter);
    case 5:
      return "n\xc3\xa4me \"" + std::to_string(counter) + "\" \n tab\t";
    case 4:
      return "long" + std::string(300, 'x') + std::to_string(counter);
    default:
      return "name-" + std::to_string(counter);
  }
}
// Often a new name, but users also use one again.
std::string some_name() {
  if (!names.empty() && choose(4) == 3) return names[choose((uint32_t)names.size())];
  names.push_back(make_name());
  return names.back();
}
// Mostly something new, now and then what this thread has viewed before.
Payload some_payload(int kind) {
  if (choose(5) == 4) {
    std::vector<const Object *> own;
    for (auto &c : calls)
      if (c.task == current_root())
        for (auto &o : c.objects) own.push_back(&o);
    if (!own.empty()) {
      count("probe.viewed_again");
      return own[choose(2) ? own.size() - 1 : choose((uint32_t)own.size())]->payload;
    }
  }
  return payload::random_payload(kind);
}

bool check_file(std::string &before) {
  before = world::exists_path(token_path) ? world::read_file(token_path) : "";
  return true;
}
bool saw401(const Call &c) {
  for (int i : c.reqs)
    if (world::http[(size_t)i].cli_status == 401) return true;
  return false;
}
bool single_process = false, disk_quiet = true;

void check_token_kept(const Call &c, const std::string &before) {
  // C09: answers other than 401 never discard the stored token.
  if (!single_process || !disk_quiet || before.empty() || saw401(c)) return;
  std::string after = world::exists_path(token_path) ? world::read_file(token_path) : "";
  if (after != before)
    violation("C09", "token-discarded", "the stored token was discarded although nothing was answered with 401");
  count("probe.token_kept");
}

bool send(Client *cl) {
  ViewUpdate u;
  Call *c;
  std::string before;
  {
    Quiet q;
    c = begin(cl->proc);
    static const uint32_t sizes[] = {1, 1, 1, 1, 2, 3, 5, 0};
    uint32_t n = sizes[choose(8)];
    for (uint32_t i = 0; i < n; i++) {
      Object o{some_payload((int)choose(7))};
      if (choose(3)) o.name = some_name();
      o.file = choose(2) ? "/some/file.cc" : "x.cpp";
      o.line = 1 + choose(1000);
      resim::UUID id = payload::random_uuid();
      o.id = id.to_string();
      u.primitives.push_back(ViewPrimitive{.id = id,
                                           .payload = o.payload,
                                           .user_defined_name = o.name,
                                           .file_name = o.file,
                                           .line_number = (int)o.line});
      c->objects.push_back(std::move(o));
    }
    note("call %d: client P%d sends %u objects", c->idx, cl->proc, n);
    check_file(before);
  }
  bool ok = false;
  std::string what;
  try {
    resim::Status s = cl->impl->send_view_update(u);
    Quiet q;
    ok = s.ok();
    if (!ok) what = s.what();
  } catch (const std::exception &e) {
    Quiet q;
    what = std::string("exception: ") + e.what();
  }
  Quiet q;
  end(c, ok, what);
  check_call_requests(*c);
  check_log(cl->proc);
  check_token_kept(*c, before);
  // C09: after a 401 the request is repeated unless no token could be obtained.
  if (cl->auth && !c->reqs.empty()) {
    auto &h = world::http[(size_t)c->reqs.back()];
    bool first = c->reqs.size() < 2 || world::http[(size_t)c->reqs[c->reqs.size() - 2]].url != h.url;
    if (h.cli_status == 401 && first && !cl->auth->refused)
      violation("C09", "not-repeated", "a request refused with 401 was not repeated although a token was available");
  }
  return ok;
}

// ---------------------------------------------------------------- view mode
// Each statement is on one line, which is what the server must be told.
template <typename T>
void statement(uint32_t how, Object *o, const T &x, const std::string &name) {
  switch (how) {
    // clang-format off
    case 0: o->file = __FILE__; o->line = __LINE__; t_quiet--; VIEW(x, name); break;
    case 1: o->file = __FILE__; o->line = __LINE__; t_quiet--; VIEW(x) << name; break;
#line 41 "robot/perception/tracker.cc"
    case 2: o->file = __FILE__; o->line = __LINE__; t_quiet--; VIEW(x, name); break;
#line 70001 "robot/planner.cc"
    case 3: o->file = __FILE__; o->line = __LINE__; t_quiet--; VIEW(x) << name; break;
#line 2 "view.cc"
    default: t_quiet--; resim::view << x; break;
    // clang-format on
  }
}

struct Noisy {
  // Balances the t_quiet-- of a statement that was reached.
  int depth;
  Noisy() : depth(t_quiet) {}
  ~Noisy() { t_quiet = depth; }
};

int view_proc = 0;

bool view_once(uint32_t how, int kind) {
  Quiet q;
  Call *c = begin(view_proc);
  Payload viewed = some_payload(kind);
  c->objects.push_back(Object{std::move(viewed)});
  Object *o = &c->objects.back();
  std::string name;
  if (how < 4) {
    name = some_name();
    o->name = name;
  }
  note("call %d: thread T%d views a %s (form %u) %s", c->idx, c->task, payload::describe(o->payload).c_str(), how,
       world::show(name).c_str());
  std::string before;
  check_file(before);
  bool ok = false;
  std::string what;
  {
    Payload copy = o->payload;
    Noisy n;
    try {
      std::visit([&](const auto &x) { statement(how, o, x, name); }, copy);
      t_quiet = n.depth;
      ok = true;
    } catch (const std::exception &e) {
      t_quiet = n.depth;
      what = e.what();
    }
  }
  end(c, ok, what);
  check_call_requests(*c);
  check_log(view_proc);
  if (calls.size() == 1) check_token_kept(*c, before);
  return ok;
}
// A long life: many updates through one client, all of which the server accepts.
void long_life(Client *cl, uint64_t n) {
  ViewUpdate u;
  uint64_t next = 0, extra = 0;
  std::string prefix;
  {
    Quiet q;
    google::RemoveLogSink(&sink);
    for (auto &h : world::http) {
      if (h.proc != cl->proc || !is_view(h) || is_session_url(h)) continue;
      size_t p = h.url.rfind('/');
      prefix = h.url.substr(0, p + 1);
      next = strtoull(h.url.c_str() + p + 1, nullptr, 10) + 1;
    }
    note("%llu more updates from number %llu on", (unsigned long long)n, (unsigned long long)next);
    count("long.updates", n);
    world::lean = [&](const cpr::SimRequest &r) {
      cpr::Response a;
      a.status_code = 201;
      a.text = "{\"view\":\"https://app.example/view?lean;\"}";
      if (r.url == world::P.view_base + "/view/sessions") {
        violation("C06", "second-session", "a second session was requested after %llu updates", (unsigned long long)next);
        a.text = "\"other\"\n";
      } else {
        // earlier failures may have used up numbers
        if (!extra && r.url.rfind(prefix, 0) == 0)
          next = std::max<uint64_t>(next, strtoull(r.url.c_str() + prefix.size(), nullptr, 10));
      }
      if (r.url != prefix + std::to_string(next)) {
        bool same = r.url.rfind(prefix, 0) == 0;
        violation(same ? "C07" : "C06,C07", same ? "wrong-number" : "wrong-session",
                  "update %llu of a session was sent to %s", (unsigned long long)next, r.url.c_str());
      }
      next++;
      extra++;
      return a;
    };
  }
  for (uint64_t i = 0; i < n && !violated(); i++) {
    uint64_t before = extra;
    resim::Status s = cl->impl->send_view_update(u);
    if (s.ok() && extra == before + 1) continue;
    Quiet q;
    violation("C08", "long-life", "update %llu of a long session: %s, %llu requests", (unsigned long long)next,
              s.ok() ? "success" : "failure", (unsigned long long)(extra - before));
  }
  Quiet q;
  world::lean = nullptr;
  google::AddLogSink(&sink);
}

bool flush_once() {
  Quiet q;
  Call *c = begin(view_proc);
  c->flush = true;
  note("call %d: thread T%d flushes", c->idx, c->task);
  bool ok = false;
  std::string what;
  {
    Noisy n;
    t_quiet--;
    try {
      resim::view.flush();
      t_quiet = n.depth;
      ok = true;
    } catch (const std::exception &e) {
      t_quiet = n.depth;
      what = e.what();
    }
  }
  end(c, ok, what);
  check_call_requests(*c);
  return ok;
}

void check_order() {
  struct Item {
    const Call *c;
    uint64_t acc;
    unsigned long long num;
    std::string session;
  };
  std::vector<Item> items;
  for (size_t i = 0; i < decoded.size(); i++)
    for (size_t k = 0; k < decoded[i].size(); k++)
      if (owner[i][k] >= 0)
        items.push_back({&calls[(size_t)owner[i][k]], world::accepted[i].seq,
                         strtoull(world::accepted[i].update_id.c_str(), nullptr, 10), world::accepted[i].session});
  for (auto &a : items)
    for (auto &b : items) {
      if (a.c == b.c || !a.c->done || a.c->client != b.c->client) continue;
      if (a.c->ret_seq < b.c->inv_seq) {
        if (a.acc > b.acc)
          violation("C12", "out-of-order", "call %d had ended before call %d began, but the server accepted it later",
                    a.c->idx, b.c->idx);
        if (a.session == b.session && a.num >= b.num)
          violation("C12", "numbers-out-of-order", "call %d had ended before call %d began, but its update is number %llu, not below %llu",
                    a.c->idx, b.c->idx, a.num, b.num);
      }
      if (a.acc < b.acc && a.session == b.session && a.num > b.num)
        violation("C12", "numbers-out-of-order", "update %llu was accepted before update %llu", a.num, b.num);
      count("probe.order_pairs");
    }
}

}  // namespace

namespace sim {

void harness_run() {
  cfg.heap_check = choose(4) == 3;
  Quiet q;
  world::reset();
  google::AddLogSink(&sink);
  auto &W = world::P;
  const std::string &p = property;
  W.auth_server = "https://resim.us.auth0.com";
  W.client_id = "RNWJ3idL2UadBBzDqAaq11G9JIgMh7iy";
  W.scope = "view:all";
  W.audience = "https://api.resim.ai";
  W.view_base = "https://api.resim.ai";
  token_path = scratch + "/.resim/view_token";

  bool only_view = p == "C10" || p == "C12" || p == "C13";
  client_mode = !only_view && choose(5) < 3;

  // ---- swarm
  bool clean = choose(8) == 7;
  bool net = !clean && choose(2), verr = !clean && choose(2), revoke = !clean && choose(2),
       disk = !clean && choose(4) == 3, crash = !clean && client_mode && choose(3) == 2,
       stalls = !clean && choose(4) == 3;
  cfg.switch_num = 1;
  cfg.switch_den = 2 + choose(6);
  if (!client_mode && choose(3)) {
    cfg.mem_num = 1;
    cfg.mem_den = 2 << choose(3);
    cfg.mem_log2max = 16;
  }
  cfg.races = p == "C13";
  if (net) {
    W.net_num = 1;
    W.net_den = 4 << choose(4);
  }
  if (verr) {
    W.verr_num = 1;
    W.verr_den = 4 << choose(4);
  }
  if (revoke) {
    W.revoke_num = 1;
    W.revoke_den = 3 << choose(3);
    if (choose(3) == 2) W.never_num = 1;
  }
  if (disk) {
    cfg.file_num = 1;
    cfg.file_den = 16 << choose(3);
  }
  if (crash) {
    cfg.crash_num = 1;
    cfg.crash_den = 16 << choose(3);
    cfg.crash_budget = (int)range(1, 2);
  }
  if (stalls) {
    cfg.stall_num = 1;
    cfg.stall_den = 128;
  }
  disk_quiet = !disk;
  faultless = clean;
  W.lat_min = MS;
  W.lat_max = MS * (1 + choose(100));
  W.interval_lo = 1, W.interval_hi = 5, W.expires_lo = 10, W.expires_hi = 60;
  W.approve_max = 3 * SEC;
  W.long_token_num = choose(2);
  if (choose(2)) {
    // Authenticated earlier.
    world::write_file(token_path, world::issue_token());
  }

  std::vector<TaskId> tasks;
  if (client_mode) {
    uint32_t nproc = range(1, 3);
    single_process = nproc == 1;
    use_recorder = choose(3) != 0;
    if (use_recorder && choose(2)) W.view_base = "http://localhost:8080";
    for (uint32_t i = 0; i < nproc; i++) {
      uint32_t n = range(1, 6);
      tasks.push_back(spawn(0, "supervisor", [n] {
        for (int inc = 0; inc < 4; inc++) {
          Quiet q;
          int proc = new_process();
          TaskId t = spawn(proc, "process", [n] {
            Client *c = new_client();
            for (uint32_t k = 0; k < n; k++) send(c);
          });
          if (join(t) == Outcome::DONE) break;
          count("restart.after_crash");
          sleep_ns(MS * (1 + choose(50)));
        }
      }));
    }
  } else {
    view_proc = new_process();
    single_process = true;
    uint32_t nthr = p == "C13" || p == "C10" || p == "C12" ? range(2, 4) : range(1, 4);
    bool simple = choose(2);  // cheap payloads: more interleavings per second
    bool flushes = p == "C13" || choose(3) == 2;
    bool long_run = choose(1024) == 1023;
    for (uint32_t i = 0; i < nthr; i++) {
      uint32_t n = range(1, 4);
      if (long_run) n += 270 / nthr;
      tasks.push_back(spawn(view_proc, "viewer", [n, simple, flushes] {
        for (uint32_t k = 0; k < n; k++) {
          uint32_t how, kind, f;
          {
            Quiet q;
            how = choose(5);
            kind = simple ? (choose(2) ? 5 : 6) : choose(7);
            f = flushes ? choose(5) : 0;
          }
          if (f == 4) flush_once();
          else view_once(how, (int)kind);
        }
      }));
    }
  }
  for (TaskId t : tasks) join(t);

  // ---- faults stop: everything works again (C13, C06)
  stop_faults();
  W.net_num = W.verr_num = W.revoke_num = 0;
  W.never_num = W.deny_num = 0;
  W.approve_max = 500 * MS;
  W.expires_lo = 30, W.expires_hi = 60;
  event("faults-stop");
  note("---- faults stop");
  size_t nhttp = world::http.size();
  if (client_mode) {
    size_t n = clients.size();
    for (size_t i = 0; i < n; i++) {
      Client *c = clients[i].get();
      if (!c->impl || process_crashed(c->proc)) continue;
      TaskId t = spawn(c->proc, "recovery", [c] {
        if (!send(c))
          violation("C13,C06", "not-recovered", "after the faults stopped, sending still fails: %s", calls.back().what.c_str());
        if (!send(c))
          violation("C13,C06", "not-recovered", "after the faults stopped, sending still fails: %s", calls.back().what.c_str());
      });
      join(t);
    }
  } else {
    std::vector<TaskId> rec;
    uint32_t n = range(1, 3);
    for (uint32_t i = 0; i < n; i++)
      rec.push_back(spawn(view_proc, "recovery", [i] {
        size_t before = world::http.size();
        bool ok = view_once(i % 5, 5);
        Quiet q;
        if (!ok) {
          std::string w;
          for (auto &c : calls)
            if (c.task == current_root()) w = c.what;
          violation("C13", "not-recovered", "after the faults stopped, a view still fails: %s", w.c_str());
        }
        (void)before;
      }));
    for (TaskId t : rec) join(t);
    size_t view_reqs = 0;
    for (size_t i = nhttp; i < world::http.size(); i++) view_reqs += is_view(world::http[i]);
    if (view_reqs > (size_t)n * 4)
      violation("C13", "too-many-requests", "%zu requests for %u views on a healthy network", view_reqs, n);
  }
  absorb();
  if (!client_mode) {
    for (auto &c : calls)
      for (auto &o : c.objects)
        if (c.ok && o.matched != 1)
          violation("C10", "not-exactly-once", "a view that returned was accepted %d times", o.matched);
    check_order();
  }
  for (auto &c : clients) check_log(c->proc);
  if (client_mode && (p == "C06" || p == "C07" || p == "C08") && !violated()) {
    // Rarely, a client lives on for long.
    uint32_t l = choose(4096);
    uint64_t n = l >= 4095 ? 66000 : l >= 4000 ? 300 : 0;
    Client *c = n && !clients.empty() ? clients[0].get() : nullptr;
    if (c && c->impl && !process_crashed(c->proc)) {
      cfg.step_cap = 100000000;
      join(spawn(c->proc, "long life", [c, n] { long_life(c, n); }));
    }
  }
  google::RemoveLogSink(&sink);
}

const char *harness_components() {
  return "{\"real\": [\"resim/visualization/view.cc\", \"resim/visualization/client/view_client.cc\", "
         "\"resim/visualization/proto/*_to_proto.cc\", \"resim/auth/device_code_client.cc\", \"resim/curves\", "
         "\"resim/transforms\", \"resim/actor/state\", \"resim/utils\", \"libprotobuf\", \"glog\", "
         "\"libuuid\", \"file system (scratch)\"], \"stub\": [\"cpr HTTP client\", \"view server\", "
         "\"authorization server and user\", \"network\", \"clock\", \"scheduler\"]}";
}
}  // namespace sim
