// Workload and oracles for the device-code authentication client (C01-C05).
#include <exception>
#include <memory>
#include <set>

#include "resim/auth/device_code_client.hh"
#include "sim/internal.h"
#include "world.h"

using namespace sim;
using resim::auth::DeviceCodeClient;

namespace {

const char *SERVER = "https://auth.example";

struct Client {
  int id;
  int proc = 0;                 // simulated process it lives in
  std::unique_ptr<DeviceCodeClient> impl;
  std::string cached;           // token handed out, not refreshed since
  std::set<std::string> held;   // everything handed out so far
  std::set<std::string> stale;  // held before the last successful refresh
  bool failed_before = false;   // an earlier call threw
  bool fresh = true;            // no get yet
};

struct Model {
  bool multi = false;         // several processes
  bool any_refresh_invoked = false;
  bool any_get_returned = false;  // some get returned: a token was saved
  // single process only: what the file must hold
  enum { NONE, KNOWN, UNKNOWN } file = NONE;
  std::string file_token;
  bool in_call = false;      // a get is (or was, if the process died) in progress
  uint64_t call_disk = 0;    // disk errors when it began
  uint64_t oversleep = 0;
  bool timing = true;  // no stalls: time bounds apply
} M;

std::string g_path;
DeviceCodeClient::Config g_config;
std::vector<std::unique_ptr<Client>> g_clients;

Client *new_client() {
  Quiet q;
  g_clients.push_back(std::make_unique<Client>());
  Client *c = g_clients.back().get();
  c->id = (int)g_clients.size();
  c->proc = current_process();
  note("client %d starts", c->id);
  t_quiet--;
  c->impl = std::make_unique<DeviceCodeClient>(g_config);
  t_quiet++;
  return c;
}

struct Call {
  uint64_t inv_seq, inv_t, ret_seq = 0, ret_t = 0;
  int task;
  bool ok = false;
  std::string value, what;
};

// The longest a client may wait between polls: a client that honours slow_down waits 5 s longer for each (RFC 8628).
uint64_t interval_of(const world::Device &d) { return (uint64_t)(d.interval + 5 * d.slow_downs) * SEC; }

// Protocol and timing of the requests one get made (C03, C04).
void check_protocol(const Call &c) {
  auto reqs = world::requests_of(c.task, c.inv_seq, c.ret_seq);
  const world::Http *dev = nullptr, *last = nullptr;
  int ndev = 0;
  for (int i : reqs) {
    auto &h = world::http[(size_t)i];
    auto ct = h.header.find("Content-Type");
    if (h.url == g_config.server + "/oauth/device/code") {
      ndev++;
      dev = &h;
      last = nullptr;
      bool ok;
      auto m = world::parse_flat_json(h.body, &ok);
      if (h.method != "POST" || !ok || m["client_id"] != g_config.client_id ||
          m["scope"] != g_config.scope || m["audience"] != g_config.audience ||
          ct == h.header.end() || ct->second.find("application/json") == std::string::npos)
        violation("C03", "device-request", "the device-code request does not carry the configured client, scope and audience: %s",
                  world::show(h.body).c_str());
    } else if (h.url == g_config.server + "/oauth/token") {
      bool ok;
      auto m = world::parse_flat_json(h.body, &ok);
      if (!dev || dev->cli_status != 200 || dev->dev < 0) {
        violation("C03", "poll-without-code", "a poll was sent without a device code from this attempt");
        return;
      }
      const world::Device &d = world::devices[(size_t)dev->dev];
      if (h.method != "POST" || !ok || m["device_code"] != d.code ||
          m["client_id"] != g_config.client_id ||
          m["grant_type"] != "urn:ietf:params:oauth:grant-type:device_code" ||
          ct == h.header.end() || ct->second.find("application/json") == std::string::npos)
        violation("C03", "poll-request", "the poll does not carry the device code, client and grant type: %s",
                  world::show(h.body).c_str());
      if (!h.url_shown)
        violation("C03", "url-not-shown", "a poll was sent before the verification URL was shown to the user");
      uint64_t interval = (uint64_t)d.interval * SEC;
      if (last && h.send_t < last->ret_t + interval)
        violation("C03", "poll-too-soon", "poll sent %.3f s after the previous answer; the interval is %d s",
                  (double)(h.send_t - last->ret_t) / 1e9, d.interval);
      if (h.send_t > dev->ret_t + (uint64_t)d.expires * SEC + 5 * MS)
        violation("C03", "poll-after-expiry", "poll sent %.3f s after the code was received; its lifetime is %d s",
                  (double)(h.send_t - dev->ret_t) / 1e9, d.expires);
      bool parsed = false;
      auto got = last ? world::parse_flat_json(last->cli_text, &parsed) : decltype(m)();
      if (last && last->cli_status == 200 && !last->cli_error && parsed && world::tokens.count(got["access_token"]))
        violation("C03", "poll-after-token", "another poll was sent after the token had been received");
      last = &h;
    } else {
      violation("C03", "unknown-endpoint", "request to an endpoint that is not part of the protocol: %s",
                h.url.c_str());
    }
  }
  if (ndev > 1)
    violation("C03,C02", "two-device-codes", "%d device codes were requested by one call", ndev);
  if (c.ret_seq && dev && dev->cli_status == 200 && dev->dev >= 0 && !dev->cli_error) {
    const world::Device &d = world::devices[(size_t)dev->dev];
    uint64_t deadline = dev->ret_t + (uint64_t)d.expires * SEC;
    uint64_t lim = deadline;
    if (last && last->ret_t > lim) lim = last->ret_t;
    lim += interval_of(d) + M.oversleep + 200 * MS;
    if (c.ret_t > lim)
      violation("C03", "no-time-out", "the attempt took %.3f s; lifetime %d s, interval %d s",
                (double)(c.ret_t - dev->ret_t) / 1e9, d.expires, d.interval);
    if (!c.ok && last && (last->cli_status == 403 || last->cli_status == 429) && !last->cli_error &&
        last->ret_t + interval_of(d) + 200 * MS < deadline && M.oversleep == 0 &&
        c.ret_t < deadline) {
      bool ok;
      auto m = world::parse_flat_json(last->cli_text, &ok);
      if (m["error"] == "authorization_pending" || m["error"] == "slow_down")
        violation("C03,C04", "gave-up-early", "the attempt failed %.3f s before the code expired although the server said to keep waiting",
                  (double)(deadline - c.ret_t) / 1e9);
    }
  }
}

// Liveness (C04): only called when the network was healthy for the whole call.
void check_liveness(const Call &c) {
  auto reqs = world::requests_of(c.task, c.inv_seq, c.ret_seq);
  const world::Http *dev = nullptr;
  for (int i : reqs)
    if (world::http[(size_t)i].url == g_config.server + "/oauth/device/code")
      dev = &world::http[(size_t)i];
  if (!dev || dev->dev < 0 || dev->cli_status != 200) return;
  const world::Device &d = world::devices[(size_t)dev->dev];
  if (d.approve_t == 0 || d.denied) return;
  uint64_t rtt = 2 * world::P.lat_max + 2 * MS;
  uint64_t approve = std::max(d.approve_t, dev->ret_t);
  uint64_t bound = approve + interval_of(d) + 2 * rtt + 50 * MS;
  uint64_t srv_deadline = d.issued_t + (uint64_t)d.expires * SEC;
  if (bound >= srv_deadline) return;
  count("probe.liveness_checked");
  if (!c.ok)
    violation("C04", "approved-but-failed", "the user approved %.3f s before expiry on a healthy network, but the call failed: %s",
              (double)(srv_deadline - approve) / 1e9, c.what.c_str());
  else if (c.ret_t > bound)
    violation("C04", "approved-but-late", "the token arrived %.3f s after approval; interval %d s, round trip at most %.3f s",
              (double)(c.ret_t - approve) / 1e9, d.interval, (double)rtt / 1e9);
}

bool healthy_network = true;

Call get(Client *cl) {
  Call c;
  {
    Quiet q;
    event("get.invoke", (uint64_t)cl->id);
    note("client %d: get", cl->id);
    c.inv_seq = seq();
    c.inv_t = now();
    c.task = current_root();
  }
  // A process that died in a call in which a disk operation failed may have replaced the file.
  if (M.in_call && disk_errors() != M.call_disk) M.file = Model::UNKNOWN;
  M.in_call = !M.multi;
  M.call_disk = disk_errors();
  bool returned_before = M.any_get_returned;
  auto file_before = M.file;
  std::string file_tok_before = M.file_token;
  uint64_t disk_before = disk_errors();
  bool had = !cl->cached.empty();
  // If the process dies in here, the file is as it was or holds a new token.
  if (!M.multi && !had && M.file != Model::KNOWN) M.file = Model::UNKNOWN;
  try {
    std::string v = cl->impl->get_jwt();
    Quiet q;
    c.value = v;
    c.ok = true;
  } catch (const std::exception &e) {
    Quiet q;
    c.what = e.what();
  } catch (...) {
    c.what = "unknown exception";
  }
  Quiet q;
  M.in_call = false;
  event("get.return", c.ok);
  c.ret_seq = seq();
  c.ret_t = now();
  note("client %d: get %s %s", cl->id, c.ok ? "returns" : "throws",
       c.ok ? world::show(c.value).c_str() : c.what.c_str());
  count(c.ok ? "get.ok" : "get.throw");
  auto reqs = world::requests_of(c.task, c.inv_seq, c.ret_seq);
  const char *p01 = cl->failed_before ? "C01,C05" : "C01";
  if (c.ok) {
    if (c.value.empty())
      violation(p01, "empty-token", "get returned an empty token");
    else if (!world::tokens.count(c.value))
      violation(p01, "not-issued", "get returned %s, which the server never issued",
                world::show(c.value).c_str());
    if (!cl->cached.empty()) {
      if (c.value != cl->cached)
        violation("C02", "token-changed", "a second get returned a different token although nothing was refreshed");
      if (!reqs.empty())
        violation("C02", "needless-request", "a second get contacted the server although a token was cached");
      count("probe.cached_get");
    } else if (cl->fresh && disk_errors() == 0 && returned_before && !M.any_refresh_invoked) {
      // Someone's token was saved, nothing was ever removed.
      if (!reqs.empty())
        violation("C02", "needless-auth", "a new process authenticated again although a token had been saved");
      count("probe.reused_saved_token");
    }
    if (cl->fresh && !M.multi && file_before == Model::KNOWN && disk_errors() == disk_before) {
      if (!reqs.empty() || c.value != file_tok_before)
        violation("C02", "saved-token-not-used", "the token saved by the previous process was not used");
      count("probe.reused_known_token");
    }
    if (cl->stale.count(c.value))
      violation("C02", "stale-token", "after a refresh, get returned %s, a token held before the refresh",
                world::show(c.value).c_str());
    cl->cached = c.value;
    cl->held.insert(c.value);
    M.any_get_returned = true;
    if (!M.multi && !had) {
      if (reqs.empty() ? cl->fresh : disk_errors() == disk_before) {
        M.file = Model::KNOWN;  // it was read from, or saved to, the file
        M.file_token = c.value;
      } else {
        M.file = Model::UNKNOWN;  // saving may have failed, now or earlier
      }
    }
  } else {
    if (!cl->cached.empty())
      violation("C02", "cached-get-failed", "get failed although a token was cached: %s", c.what.c_str());
    cl->failed_before = true;
    if (!M.multi && (M.file != Model::KNOWN || disk_errors() != disk_before)) M.file = Model::UNKNOWN;
  }
  cl->fresh = false;
  if (M.timing) check_protocol(c);
  if (healthy_network) check_liveness(c);
  return c;
}

bool refresh(Client *cl) {
  {
    Quiet q;
    event("refresh.invoke", (uint64_t)cl->id);
    note("client %d: refresh", cl->id);
  }
  M.any_refresh_invoked = true;
  M.file = Model::UNKNOWN;
  bool ok = true;
  uint64_t s0 = seq();
  {
    Quiet q;
    cl->cached.clear();
  }
  try {
    cl->impl->refresh();
  } catch (const std::exception &e) {
    ok = false;
    Quiet q;
    note("client %d: refresh throws %s", cl->id, e.what());
  }
  Quiet q;
  event("refresh.return", ok);
  count(ok ? "refresh.ok" : "refresh.throw");
  if (ok) {
    cl->stale = cl->held;
    if (!M.multi) M.file = Model::NONE;
    if (!M.multi && world::exists_path(g_path) && cl->held.count(world::read_file(g_path)))
      violation("C02", "refresh-kept-file", "after a refresh the old token is still stored");
  } else {
    cl->failed_before = true;
  }
  auto reqs = world::requests_of(current_root(), s0, seq());
  (void)reqs;
  return ok;
}

void process_body(uint32_t nops) {
  Client *c = new_client();
  for (uint32_t i = 0; i < nops; i++) {
    uint32_t op;
    {
      Quiet q;
      op = choose(10);
    }
    switch (op) {
      case 0: case 1: case 2: case 3: case 4:
        get(c);
        break;
      case 5: case 6:
        refresh(c);
        break;
      case 7: {
        Quiet q;
        // seconds, or days
        if (choose(4) == 3) sleep_ns((uint64_t)(1 + choose(200000)) * SEC);
        else sleep_ns((uint64_t)(1 + choose(20000)) * MS);
        break;
      }
      case 8:
        // graceful restart
        c = new_client();
        count("restart.graceful");
        break;
      default:
        get(c);
        get(c);
        break;
    }
  }
}

}  // namespace

namespace sim {

void harness_run() {
  cfg.heap_check = choose(4) == 3;
  Quiet q;
  world::reset();
  auto &W = world::P;
  g_clients.clear();
  M = Model{};
  const std::string &p = property;

  W.auth_server = SERVER;
  W.client_id = "client-" + std::to_string(choose(4));
  static const char *ids[] = {"", "RNWJ3idL2UadBBzDqAaq11G9JIgMh7iy", "<a&b>=+/%20", "\xc3\xa4"};
  W.client_id += ids[choose(4)];
  static const char *scopes[] = {"view:all", "scope with spaces \"and quotes\"", "openid profile offline_access", ""};
  W.scope = scopes[choose(4)];
  static const char *audiences[] = {"https://api.example", "urn:x/y?z=1&w=<2>", "https://api.example/", "a b\\c"};
  W.audience = audiences[choose(4)];
  W.view_base = "https://view.example";

  g_path = scratch + "/home";
  static const char *paths[] = {"/.resim/view_token", "/token", "/a/b/c/jwt", "/x y/\xc3\xbc/t"};
  g_path += paths[choose(4)];
  g_config.server = SERVER;
  g_config.client_id = W.client_id;
  g_config.scope = W.scope;
  g_config.audience = W.audience;
  g_config.token_path = g_path;

  // ---- swarm: which faults does this run have?
  bool net = false, disk = false, crash = false, jumps = false, stalls = false;
  uint32_t nproc = 1;
  if (p == "C01") {
    net = choose(2);
    disk = choose(2);
    crash = choose(2);
    nproc = range(1, 3);
  } else if (p == "C02") {
    net = choose(3) == 2;
    disk = choose(3) == 2;
    crash = choose(3) == 2;
    nproc = choose(2) ? range(2, 3) : 1;
  } else if (p == "C03") {
    net = choose(2);
    jumps = choose(2);
    nproc = choose(3) == 2 ? 2 : 1;
  } else if (p == "C04") {
    jumps = choose(2);
    nproc = choose(3) == 2 ? 2 : 1;
  } else {  // C05
    net = choose(3) > 0;
    disk = choose(2);
    crash = choose(2);
    nproc = range(1, 3);
  }
  if (p == "C01" || p == "C02" || p == "C05") {
    jumps = choose(4) == 3;
    stalls = choose(3) == 2;
  }
  cfg.switch_num = 1;
  cfg.switch_den = 2 + choose(6);
  if (choose(2)) {
    cfg.mem_num = 1;
    cfg.mem_den = 8;
  }
  if (disk) {
    cfg.file_num = 1;
    cfg.file_den = 8 << choose(3);
  }
  if (crash) {
    cfg.crash_num = 1;
    cfg.crash_den = 16 << choose(3);
    cfg.crash_budget = (int)range(1, 3);
  }
  if (net) {
    W.net_num = 1;
    W.net_den = 4 << choose(4);
  }
  if (stalls) {
    cfg.stall_num = 1;
    cfg.stall_den = 64;
  }
  M.multi = nproc > 1;
  M.timing = !stalls;
  healthy_network = !net && !stalls && !crash && !disk;
  W.long_token_num = choose(2);
  W.lat_min = MS;
  W.lat_max = MS * (1 + choose(200));
  switch (choose(12)) {
    case 11:
      W.interval_lo = 20, W.interval_hi = 120, W.expires_lo = 900, W.expires_hi = 7200;
      break;
    case 0: case 1: case 2:
      W.interval_lo = 1, W.interval_hi = 5, W.expires_lo = 10, W.expires_hi = 60;
      break;
    case 3: case 4: case 5:
      W.interval_lo = 5, W.interval_hi = 5, W.expires_lo = 300, W.expires_hi = 900;
      break;
    case 6: case 7: case 8:
      W.interval_lo = 0, W.interval_hi = 1, W.expires_lo = 0, W.expires_hi = 4;
      W.lat_min = 20 * MS;
      W.lat_max = W.lat_min + W.lat_max;
      break;
    default:
      W.interval_lo = 2, W.interval_hi = 15, W.expires_lo = 5, W.expires_hi = 40;
      break;
  }
  switch (choose(4)) {
    case 0: W.approve_max = SEC; break;
    case 1: W.approve_max = 20 * SEC; break;
    case 2: W.approve_max = (uint64_t)W.expires_hi * SEC; break;
    default: W.approve_max = (uint64_t)W.expires_hi * 2 * SEC; break;
  }
  if (choose(3) == 2) W.never_num = 1;
  if (choose(4) == 3) W.deny_num = 1;
  // A request slower than the interval.
  W.slow_down = choose(4) == 3;
  if ((p == "C03" || p == "C04") && choose(4) == 3) {
    W.lat_max = SEC * (1 + choose(8));
  }

  // ---- initial state of the disk
  switch (choose(5)) {
    case 1: {  // a token saved by an earlier process
      std::string t = world::issue_token();
      world::write_file(g_path, t);
      M.any_get_returned = true;
      M.file = Model::KNOWN;
      M.file_token = t;
      break;
    }
    case 2:  // an empty file left behind by a crash of an older version
      world::write_file(g_path, "");
      M.file = Model::UNKNOWN;
      break;
    case 3:
      world::make_dirs(g_path.substr(0, g_path.rfind('/')));
      break;
    default:
      break;
  }

  // ---- processes
  std::vector<TaskId> sup;
  bool done = false;
  for (uint32_t i = 0; i < nproc; i++) {
    uint32_t nops = range(1, 6);
    sup.push_back(spawn(0, "supervisor", [nops] {
      // A supervisor restarts its process when it crashes.
      for (int inc = 0; inc < 5; inc++) {
        Quiet q;
        int proc = new_process();
        TaskId t = spawn(proc, "process", [nops] { process_body(nops); });
        if (join(t) == Outcome::DONE) break;
        count("restart.after_crash");
        if (!M.multi && M.file != Model::KNOWN) M.file = Model::UNKNOWN;
        sleep_ns(MS * (1 + choose(50)));
      }
    }));
  }
  TaskId clock = -1;
  if (jumps) {
    clock = spawn(0, "clock", [&done] {
      Quiet q;
      for (int i = 0; i < 20 && !done; i++) {
        sleep_ns((uint64_t)(1 + choose(30000)) * MS);
        if (done) break;
        static const int64_t d[] = {3600, -3600, 86400, -86400, 1, -1, 365 * 86400, -600};
        jump_realtime(d[choose(8)] * (int64_t)SEC);
      }
    });
  }
  for (TaskId t : sup) join(t);
  done = true;
  if (clock >= 0) join(clock);

  // ---- faults stop: everyone must be able to get a token now (C05)
  stop_faults();
  W.net_num = 0;
  W.never_num = W.deny_num = 0;
  W.approve_max = 500 * MS;
  if (W.expires_lo < 30) W.expires_lo = 30, W.expires_hi = std::max(W.expires_hi, 30);
  W.lat_max = std::min<uint64_t>(W.lat_max, SEC);
  event("faults-stop");
  note("---- faults stop");
  size_t n = g_clients.size();
  std::vector<Client *> check;
  for (size_t i = 0; i < n; i++) check.push_back(g_clients[i].get());
  int proc = new_process();
  TaskId t = spawn(proc, "recovery", [&check] {
    for (Client *c : check) {
      if (!c->impl || process_crashed(c->proc)) continue;  // gone with its process
      Call r = get(c);
      if (!r.ok)
        violation("C05", "not-recovered", "after the faults stopped, get still fails: %s", r.what.c_str());
    }
    Client *c = new_client();
    Call r = get(c);
    if (!r.ok)
      violation("C05", "new-process-fails", "after the faults stopped, a new process cannot get a token: %s",
                r.what.c_str());
    if (!refresh(c)) violation("C05", "refresh-fails", "refresh fails without any fault");
    r = get(c);
    if (!r.ok)
      violation("C05", "not-recovered", "get after refresh fails without any fault: %s", r.what.c_str());
    c = new_client();
    r = get(c);
    if (!r.ok)
      violation("C05", "new-process-fails", "a new process cannot get a token without any fault: %s",
                r.what.c_str());
  });
  join(t);
}

const char *harness_components() {
  return "{\"real\": [\"resim/auth/device_code_client.cc\", \"resim/auth/proto (generated)\", "
         "\"resim/assert\", \"resim/utils\", \"libprotobuf JSON\", \"libstdc++ fstream/filesystem\", "
         "\"file system (tmpfs or disk scratch)\"], \"stub\": [\"cpr HTTP client\", "
         "\"authorization server and user\", \"clock\", \"scheduler\"]}";
}
}  // namespace sim
