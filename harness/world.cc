#include "world.h"

#include <cpr/cpr.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>

#include "sim/internal.h"

namespace world {

Params P;
std::deque<Http> http;
std::vector<Device> devices;
std::map<std::string, Token> tokens;
std::vector<Session> sessions;
std::vector<Accepted> accepted;

void reset() {
  P = Params{};
  http.clear();
  devices.clear();
  tokens.clear();
  sessions.clear();
  accepted.clear();
}

std::string show(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < 60; i++) {
    unsigned char c = (unsigned char)s[i];
    char b[8];
    if (c < 0x20 || c >= 0x7f)
      snprintf(b, sizeof b, "\\x%02x", c);
    else
      snprintf(b, sizeof b, "%c", c);
    o += b;
  }
  o += "\"";
  if (s.size() > 60) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}

static std::string random_name(size_t n, const char *alphabet) {
  std::string s;
  size_t k = strlen(alphabet);
  for (size_t i = 0; i < n; i++) s += alphabet[sim::entropy64() % k];
  return s;
}
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

std::string new_token_string() {
  size_t n = 8 + sim::choose(40);
  if (P.long_token_num && sim::chance(P.long_token_num, P.long_token_den)) {
    static const size_t sizes[] = {700, 1500, 4095, 4096, 8190, 8191, 8192, 9000, 20000};
    n = sizes[sim::choose(9)];
  }
  std::string t = "eyJ" + random_name(n / 2, B64) + "." + random_name(n - n / 2, B64);
  // RFC 6749 allows any visible character and space in an access token.
  if (sim::chance(1, 8)) {
    static const char *odd[] = {" ", "~+/=", "'", "%41", "#", "\\", "\""};
    t.insert(t.size() / 2, odd[sim::choose(7)]);
    static const char *last[] = {"", "=", "==", "~", "/", "-"};
    t += last[sim::choose(6)];
  }
  return t;
}
std::string issue_token() {
  std::string t = new_token_string();
  Token k;
  k.issued_seq = sim::seq();
  if (P.token_life_max) k.expires_t = sim::now() + 1 + sim::choose((uint32_t)(P.token_life_max / sim::MS)) * sim::MS;
  tokens[t] = k;
  return t;
}
void revoke(const std::string &t, const char *why) {
  auto it = tokens.find(t);
  if (it != tokens.end() && !it->second.revoked) {
    it->second.revoked = true;
    it->second.revoked_seq = sim::seq();
    sim::note("server revokes token %s (%s)", show(t).c_str(), why);
  }
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o + "\"";
}

std::map<std::string, std::string> parse_flat_json(const std::string &s, bool *ok) {
  std::map<std::string, std::string> m;
  size_t i = 0;
  auto ws = [&] { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; };
  auto str = [&](std::string &o) {
    if (i >= s.size() || s[i] != '"') return false;
    i++;
    while (i < s.size() && s[i] != '"') {
      if (s[i] == '\\') {
        i++;
        if (i >= s.size()) return false;
        switch (s[i]) {
          case 'n': o += '\n'; break;
          case 't': o += '\t'; break;
          case 'r': o += '\r'; break;
          case 'b': o += '\b'; break;
          case 'f': o += '\f'; break;
          case 'u': {
            if (i + 4 >= s.size()) return false;
            unsigned v = (unsigned)strtoul(s.substr(i + 1, 4).c_str(), nullptr, 16);
            i += 4;
            if (v < 0x80) o += (char)v;
            else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); }
            else { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
            break;
          }
          default: o += s[i];
        }
      } else {
        o += s[i];
      }
      i++;
    }
    if (i >= s.size()) return false;
    i++;
    return true;
  };
  *ok = false;
  ws();
  if (i >= s.size() || s[i] != '{') return m;
  i++;
  ws();
  if (i < s.size() && s[i] == '}') {
    *ok = true;
    return m;
  }
  for (;;) {
    std::string k, v;
    ws();
    if (!str(k)) return m;
    ws();
    if (i >= s.size() || s[i] != ':') return m;
    i++;
    ws();
    if (i < s.size() && s[i] == '"') {
      if (!str(v)) return m;
    } else {
      while (i < s.size() && s[i] != ',' && s[i] != '}') v += s[i++];
    }
    m[k] = v;
    ws();
    if (i < s.size() && s[i] == ',') {
      i++;
      continue;
    }
    if (i < s.size() && s[i] == '}') {
      i++;
      ws();
      *ok = i == s.size();
      return m;
    }
    return m;
  }
}

static bool starts(const std::string &s, const std::string &p) { return s.rfind(p, 0) == 0; }

// ------------------------------------------------------------ auth server
static void auth_device(Http &h) {
  bool ok;
  auto m = parse_flat_json(h.body, &ok);
  if (!ok || m["client_id"] != P.client_id) {
    h.srv_status = 403;
    h.srv_text = "{\"error\":\"unauthorized_client\",\"error_description\":\"Unknown client\"}";
    return;
  }
  Device d;
  int n = (int)devices.size();
  d.code = "dc" + std::to_string(n) + "-" + random_name(12, B64);
  // opaque to the client
  switch (sim::choose(8)) {
    case 5:
      d.code += random_name(4, "+/=~.:%&") + random_name(8, B64) + "==";
      break;
    case 6:
      d.code += random_name(600, B64);
      break;
    case 7:
      d.code = random_name(6, B64) + " \"" + std::to_string(n) + "\" \\ ";
      break;
  }
  d.user_code = random_name(8, "BCDFGHJKLMNPQRSTVWXZ");
  d.uri = "https://auth.example/activate";
  d.uri_complete = d.uri + "?user_code=" + d.user_code + "-" + std::to_string(n);
  if (sim::choose(4) == 3) d.uri_complete += "&lang=de%20DE&x=" + random_name(200, B64) + "#top";
  d.interval = (int)sim::range((uint32_t)P.interval_lo, (uint32_t)P.interval_hi);
  d.expires = (int)sim::range((uint32_t)P.expires_lo, (uint32_t)P.expires_hi);
  d.issued_t = sim::now();
  if (!sim::chance(P.never_num, P.never_den))
    d.approve_t = sim::now() + sim::choose((uint32_t)(P.approve_max / sim::MS) + 1) * sim::MS + 1;
  if (sim::chance(P.deny_num, P.deny_den)) d.denied = true;
  h.dev = n;
  devices.push_back(d);
  h.srv_status = 200;
  h.srv_text = "{\"device_code\":" + json_str(d.code) + ",\"user_code\":" + json_str(d.user_code) +
               ",\"verification_uri\":" + json_str(d.uri) +
               ",\"expires_in\":" + std::to_string(d.expires) +
               ",\"interval\":" + std::to_string(d.interval) +
               ",\"verification_uri_complete\":" + json_str(d.uri_complete) + "}";
}
static void auth_error(Http &h, const char *e) {
  h.srv_status = 403;
  h.srv_text = std::string("{\"error\":\"") + e + "\",\"error_description\":\"see error\"}";
}
static int find_device(const std::string &body) {
  bool ok;
  auto m = parse_flat_json(body, &ok);
  for (size_t i = 0; i < devices.size(); i++)
    if (ok && devices[i].code == m["device_code"]) return (int)i;
  return -1;
}
static void auth_token(Http &h) {
  bool ok;
  auto m = parse_flat_json(h.body, &ok);
  h.dev = find_device(h.body);
  if (!ok || h.dev < 0 || m["client_id"] != P.client_id ||
      m["grant_type"] != "urn:ietf:params:oauth:grant-type:device_code")
    return auth_error(h, "invalid_grant");
  Device &d = devices[(size_t)h.dev];
  d.polls++;
  if (d.used) return auth_error(h, "invalid_grant");
  if (sim::now() > d.issued_t + (uint64_t)d.expires * sim::SEC) return auth_error(h, "expired_token");
  if (d.approve_t == 0 || sim::now() < d.approve_t) {
    // Auth0 answers 429 slow_down to a client it finds too eager
    if (P.slow_down && sim::choose(6) == 5) {
      d.slow_downs++;
      sim::count("server.slow_down");
      auth_error(h, "slow_down");
      h.srv_status = 429;
      return;
    }
    return auth_error(h, "authorization_pending");
  }
  if (d.denied) return auth_error(h, "access_denied");
  d.used = true;
  std::string t = issue_token();
  sim::note("server issues token %s", show(t).c_str());
  h.srv_status = 200;
  // How long it is valid is for the view server to say; the order and spacing of the fields is free.
  static const char *valid[] = {"86400", "3600", "300", "30", "1", "0"};
  std::string v = valid[sim::choose(6)];
  switch (sim::choose(4)) {
    case 0:
      h.srv_text = "{\"access_token\":" + json_str(t) + ",\"expires_in\":" + v + ",\"token_type\":\"Bearer\"}";
      break;
    case 1:
      h.srv_text = "{\n  \"token_type\": \"Bearer\",\n  \"expires_in\": " + v + ",\n  \"access_token\": " + json_str(t) + "\n}\n";
      break;
    case 2:
      h.srv_text = "{\"expires_in\":" + v + ", \"access_token\" : " + json_str(t) + ",\"token_type\":\"Bearer\"}";
      break;
    default:
      h.srv_text = "{\"access_token\":" + json_str(t) + "}";
      break;
  }
}

// ------------------------------------------------------------ view server
static bool check_bearer(Http &h) {
  auto it = tokens.find(h.bearer);
  bool good = h.has_bearer && it != tokens.end() && !it->second.revoked &&
              (it->second.expires_t == 0 || sim::now() < it->second.expires_t);
  if (good && sim::faults_enabled() && P.revoke_num && sim::chance(P.revoke_num, P.revoke_den)) {
    revoke(h.bearer, "expired");
    sim::fault("auth.token_expired");
    good = false;
  }
  if (!good) {
    if (it != tokens.end()) revoke(h.bearer, "expired");
    h.srv_status = 401;
    h.srv_text = "{\"message\":\"Unauthorized\"}";
    return false;
  }
  it->second.uses++;
  return true;
}
static bool view_error(Http &h) {
  if (sim::faults_enabled() && P.verr_num && sim::chance(P.verr_num, P.verr_den)) {
    static const long st[] = {500, 503, 403, 429, 404, 400, 200, 202, 409, 502, 504, 204,
                              206, 203, 301, 302, 304, 307, 402, 408, 410, 413, 422, 501};
    uint32_t k = sim::choose(3) ? sim::choose(8) : sim::choose(24);
    char name[16];
    snprintf(name, sizeof name, "http.%ld", st[k]);
    sim::fault(name);
    h.srv_status = st[k];
    h.srv_text = k == 1 ? "<html><body>Service Unavailable</body></html>" : "{\"message\":\"error\"}";
    return true;
  }
  return false;
}
static void view_session(Http &h) {
  if (!check_bearer(h)) return;
  if (view_error(h)) return;
  Session s;
  s.id = random_name(8, "0123456789abcdef") + "-" + random_name(4, "0123456789abcdef") + "-" +
         std::to_string(sessions.size());
  // opaque to the client: any form that can stand in a URL
  switch (sim::choose(8)) {
    case 4:
      s.id = std::to_string(1000 + sessions.size() * 7);
      break;
    case 5:
      s.id = random_name(60, B64) + std::to_string(sessions.size());
      break;
    case 6:
      s.id += "-" + random_name(4, "0123456789abcdef") + "-" + random_name(12, "0123456789abcdef");
      break;
    case 7: {
      static const char *last[] = {"-", "_", ".", "~", "00", "A"};
      s.id += last[sim::choose(6)];
      break;
    }
  }
  s.created_by = h.idx;
  sessions.push_back(s);
  h.session = s.id;
  h.srv_status = 201;
  h.srv_text = "\"" + s.id + (sim::choose(8) == 7 ? "\"" : "\"\n");
  sim::note("server creates session %s", s.id.c_str());
}
static void view_update(Http &h) {
  std::string rest = h.url.substr(P.view_base.size() + strlen("/view/sessions/"));
  size_t p = rest.find("/updates/");
  if (p != std::string::npos) {
    h.session = rest.substr(0, p);
    h.update_id = rest.substr(p + 9);
  }
  if (!check_bearer(h)) return;
  bool known = false;
  for (auto &s : sessions) known |= s.id == h.session;
  if (!known || p == std::string::npos) {
    h.srv_status = 404;
    h.srv_text = "{\"message\":\"no such session\"}";
    return;
  }
  if (view_error(h)) return;
  h.srv_status = 201;
  h.accepted = (int)accepted.size();
  h.link = "https://app.example/view?s=" + h.session + "&u=" + std::to_string(h.accepted) + ";";
  switch (sim::choose(8)) {
    case 5:
      h.link += "%20%s%n{}{0}\\" + random_name(8, B64) + ";";
      break;
    case 6:
      h.link += "t=" + random_name(900, B64) + ";";
      break;
    case 7:
      h.link += "#/sc\xc3\xa8ne/<1>&y='2'" + random_name(4, B64) + ";";
      break;
  }
  std::string id = "\"id\":" + json_str(h.session), mcap = "\"mcap\":" + json_str("https://mcap.example/" + h.session),
              view = "\"view\":" + json_str(h.link);
  h.srv_text = sim::choose(2) ? "{" + id + "," + mcap + "," + view + "}" : "{\n  " + view + ",\n " + id + ", " + mcap + "}\n";
  accepted.push_back({h.session, h.update_id, h.body, sim::seq(), h.idx});
  sim::note("server accepts update %s of session %s (%zu bytes)", h.update_id.c_str(),
            h.session.c_str(), h.body.size());
}

static void serve(Http &h) {
  h.srv_t = sim::now();
  sim::event("http.serve", (uint64_t)h.idx);
  h.srv_seq = sim::seq();
  if (h.method == "POST" && h.url == P.auth_server + "/oauth/device/code")
    auth_device(h);
  else if (h.method == "POST" && h.url == P.auth_server + "/oauth/token")
    auth_token(h);
  else if (h.method == "POST" && h.url == P.view_base + "/view/sessions")
    view_session(h);
  else if (h.method == "POST" && starts(h.url, P.view_base + "/view/sessions/"))
    view_update(h);
  else {
    h.srv_status = 404;
    h.srv_text = "{\"message\":\"Not Found\"}";
  }
}

static cpr::Response reply(Http &h, long status, const std::string &text, cpr::ErrorCode e) {
  cpr::Response r;
  r.status_code = status;
  r.text = text;
  r.url = cpr::Url{h.url};
  if (e != cpr::ErrorCode::OK) r.error = cpr::Error{e, "simulated transport error"};
  h.cli_status = status;
  h.cli_text = text;
  h.cli_error = e != cpr::ErrorCode::OK;
  sim::event("http.return", (uint64_t)h.idx, (uint64_t)status);
  h.ret_t = sim::now();
  h.ret_seq = sim::seq();
  sim::note("http #%d returns %ld%s %s", h.idx, status, h.cli_error ? " (transport error)" : "",
            show(text).c_str());
  return r;
}

// What a proxy or captive portal answers instead of the server.
static std::string proxy_page() {
  static const char *const pages[] = {"<html><head><title>Gateway trouble</title></head></html>", "{}", "",
                                      "{\"access_token\":\"\"}", "null"};
  return pages[sim::choose(5)];
}

std::function<cpr::Response(const cpr::SimRequest &)> lean;
cpr::Response perform(const cpr::SimRequest &req) {
  if (lean) return lean(req);
  sim::count("http.requests");
  http.emplace_back();
  Http &h = http.back();
  h.idx = (int)http.size() - 1;
  h.task = sim::current_root();
  h.proc = sim::current_process();
  h.method = req.method;
  h.url = req.url;
  h.body = req.body;
  h.bearer = req.bearer;
  h.has_bearer = req.has_bearer;
  for (auto &[k, v] : req.header) h.header[k] = v;
  h.send_t = sim::now();
  sim::event("http.send", (uint64_t)h.idx, req.body.size());
  h.send_seq = sim::seq();
  sim::note("http #%d %s %s bearer=%s body=%s", h.idx, h.method.c_str(), h.url.c_str(),
            h.has_bearer ? show(h.bearer).c_str() : "none",
            h.url.find("/updates/") == std::string::npos ? show(h.body).c_str()
                                                         : std::to_string(h.body.size()).c_str());
  if (h.url == P.auth_server + "/oauth/token") {
    h.dev = find_device(h.body);
    if (h.dev >= 0) {
      const std::string &u = devices[(size_t)h.dev].uri_complete;
      h.url_shown = sim::captured(1, false).find(u) != std::string::npos ||
                    sim::captured(2, false).find(u) != std::string::npos;
    }
  }
  sim::point("http.send");
  sim::maybe_crash("http.send");

  auto lat = [&] {
    uint32_t span = (uint32_t)((P.lat_max - P.lat_min) / sim::MS);
    return P.lat_min + (uint64_t)sim::choose(span + 1) * sim::MS;
  };
  auto wait = [&](uint64_t d) { sim::sleep_ns(d); };

  int f = 0;  // network fault kind
  if (P.net_num && sim::faults_enabled() && sim::chance(P.net_num, P.net_den))
    f = 1 + (int)sim::choose(P.allow_trunc ? 7 : 6);
  if (f == 1) {
    sim::fault("net.connect_failed");
    wait(lat());
    return reply(h, 0, "", cpr::ErrorCode::CONNECTION_FAILURE);
  }
  if (f == 2) {
    sim::fault("net.request_lost");
    wait(30 * sim::SEC);
    return reply(h, 0, "", cpr::ErrorCode::OPERATION_TIMEDOUT);
  }
  if (f == 3) {
    sim::fault("net.proxy_error_before_server");
    wait(lat());
    static const long st[] = {502, 503, 200, 429};
    return reply(h, st[sim::choose(4)], proxy_page(), cpr::ErrorCode::OK);
  }
  uint64_t l1 = lat(), l2 = lat();
  if (f == 4) {
    sim::fault("net.slow");
    l1 += (uint64_t)(1 + sim::choose(20)) * sim::SEC;
  }
  if (req.timeout_ms > 0 && l1 + l2 > (uint64_t)req.timeout_ms * sim::MS) {
    if (l1 < (uint64_t)req.timeout_ms * sim::MS) {
      wait(l1);
      serve(h);
      wait((uint64_t)req.timeout_ms * sim::MS - l1);
    } else {
      wait((uint64_t)req.timeout_ms * sim::MS);
    }
    return reply(h, 0, "", cpr::ErrorCode::OPERATION_TIMEDOUT);
  }
  wait(l1);
  serve(h);
  sim::point("http.served");
  sim::maybe_crash("http.served");
  wait(l2);
  if (f == 5) {
    sim::fault("net.response_lost");
    return reply(h, 0, "", cpr::ErrorCode::NETWORK_RECEIVE_ERROR);
  }
  if (f == 6) {
    sim::fault("net.proxy_error_after_server");
    return reply(h, sim::choose(2) ? 500 : 504, proxy_page(), cpr::ErrorCode::OK);
  }
  if (f == 7 && !h.srv_text.empty()) {
    sim::fault("net.response_truncated");
    size_t k = sim::choose((uint32_t)h.srv_text.size());
    return reply(h, h.srv_status, h.srv_text.substr(0, k), cpr::ErrorCode::NETWORK_RECEIVE_ERROR);
  }
  return reply(h, h.srv_status, h.srv_text, cpr::ErrorCode::OK);
}

std::vector<int> requests_of(int task, uint64_t a, uint64_t b) {
  std::vector<int> v;
  for (auto &h : http)
    if (h.task == task && h.send_seq >= a && h.send_seq <= b) v.push_back(h.idx);
  return v;
}

// ------------------------------------------------------------ plain files
bool exists_path(const std::string &p) {
  struct ::stat st;
  return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0) == 0;
}
std::string read_file(const std::string &p) {
  std::string s;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY);
  if (fd < 0) return s;
  char b[4096];
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
  syscall(SYS_close, fd);
  return s;
}
void make_dirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') syscall(SYS_mkdirat, AT_FDCWD, p.substr(0, i).c_str(), 0755);
}
void write_file(const std::string &p, const std::string &d) {
  make_dirs(p.substr(0, p.rfind('/')));
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  long r = syscall(SYS_write, fd, d.data(), d.size());
  (void)r;
  syscall(SYS_close, fd);
}

}  // namespace world

namespace cpr {
Response sim_perform(const SimRequest &r) {
  sim::Quiet q;
  return world::perform(r);
}
}  // namespace cpr
