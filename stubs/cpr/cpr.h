// Stub of the cpr HTTP library: the network seam.  The API subset a client of
// cpr 1.9/1.10 may reasonably use; every request ends in cpr::sim_perform(),
// which the simulator implements.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <future>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace cpr {

template <class T>
class StringHolder {
 public:
  StringHolder() = default;
  StringHolder(std::string s) : str_(std::move(s)) {}
  StringHolder(std::string_view s) : str_(s) {}
  StringHolder(const char *s) : str_(s) {}
  StringHolder(const char *s, size_t n) : str_(s, n) {}
  StringHolder(std::initializer_list<std::string> l) {
    for (const auto &x : l) str_ += x;
  }
  StringHolder(const StringHolder &) = default;
  StringHolder(StringHolder &&) noexcept = default;
  StringHolder &operator=(const StringHolder &) = default;
  StringHolder &operator=(StringHolder &&) noexcept = default;
  virtual ~StringHolder() = default;
  explicit operator std::string() const { return str_; }
  T operator+(const char *o) const { return T(str_ + o); }
  T operator+(const std::string &o) const { return T(str_ + o); }
  T operator+(const StringHolder<T> &o) const { return T(str_ + o.str_); }
  void operator+=(const char *o) { str_ += o; }
  void operator+=(const std::string &o) { str_ += o; }
  bool operator==(const char *o) const { return str_ == o; }
  bool operator==(const std::string &o) const { return str_ == o; }
  bool operator==(const StringHolder<T> &o) const { return str_ == o.str_; }
  bool operator!=(const char *o) const { return str_ != o; }
  bool operator!=(const std::string &o) const { return str_ != o; }
  const std::string &str() const { return str_; }
  const char *c_str() const { return str_.c_str(); }
  const char *data() const { return str_.data(); }
  size_t size() const { return str_.size(); }

 protected:
  std::string str_;
};
template <class T>
std::ostream &operator<<(std::ostream &os, const StringHolder<T> &s) {
  return os << s.str();
}

class Url : public StringHolder<Url> {
 public:
  using StringHolder<Url>::StringHolder;
  Url() = default;
};
class Body : public StringHolder<Body> {
 public:
  using StringHolder<Body>::StringHolder;
  Body() = default;
};
class BodyView {
 public:
  BodyView(std::string_view v) : v_(v) {}
  BodyView(const char *s, size_t n) : v_(s, n) {}
  std::string str() const { return std::string(v_); }

 private:
  std::string_view v_;
};
class Bearer {
 public:
  Bearer(std::string token) : token_(std::move(token)) {}
  Bearer(const char *token) : token_(token) {}
  Bearer(std::string_view token) : token_(token) {}
  Bearer(std::initializer_list<std::string> l) : token_(*l.begin()) {}
  const std::string &sim_token() const { return token_; }

 private:
  std::string token_;
};
struct CaseInsensitiveCompare {
  bool operator()(const std::string &a, const std::string &b) const noexcept {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; i++) {
      auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; };
      if (lo(a[i]) != lo(b[i])) return lo(a[i]) < lo(b[i]);
    }
    return a.size() < b.size();
  }
};
using Header = std::map<std::string, std::string, CaseInsensitiveCompare>;
struct Parameter {
  std::string key, value;
};
class Parameters {
 public:
  Parameters() = default;
  Parameters(std::initializer_list<Parameter> l) : v_(l) {}
  void Add(const Parameter &p) { v_.push_back(p); }
  std::vector<Parameter> v_;
};
class Timeout {
 public:
  Timeout(std::chrono::milliseconds d) : ms(d) {}
  Timeout(int m) : ms(m) {}
  std::chrono::milliseconds ms;
};
class ConnectTimeout : public Timeout {
 public:
  using Timeout::Timeout;
};
struct VerifySsl {
  VerifySsl(bool v) : verify(v) {}
  bool verify;
};
struct Redirect {
  Redirect(bool f = true) : follow(f) {}
  bool follow;
};
struct UserAgent : StringHolder<UserAgent> {
  using StringHolder<UserAgent>::StringHolder;
};

enum class ErrorCode {
  OK = 0,
  CONNECTION_FAILURE,
  EMPTY_RESPONSE,
  HOST_RESOLUTION_FAILURE,
  INTERNAL_ERROR,
  INVALID_URL_FORMAT,
  NETWORK_RECEIVE_ERROR,
  NETWORK_SEND_FAILURE,
  OPERATION_TIMEDOUT,
  PROXY_RESOLUTION_FAILURE,
  SSL_CONNECT_ERROR,
  SSL_LOCAL_CERTIFICATE_ERROR,
  SSL_REMOTE_CERTIFICATE_ERROR,
  SSL_CACERT_ERROR,
  GENERIC_SSL_ERROR,
  UNSUPPORTED_PROTOCOL,
  REQUEST_CANCELLED,
  TOO_MANY_REDIRECTS,
  UNKNOWN_ERROR = 1000,
};
class Error {
 public:
  ErrorCode code = ErrorCode::OK;
  std::string message;
  Error() = default;
  Error(ErrorCode c, std::string m) : code(c), message(std::move(m)) {}
  explicit operator bool() const { return code != ErrorCode::OK; }
};

class Response {
 public:
  long status_code{};
  std::string text{};
  Header header{};
  Url url{};
  double elapsed{};
  Error error{};
  std::string raw_header{};
  std::string status_line{};
  std::string reason{};
  long redirect_count{};
  uint64_t uploaded_bytes{};
  uint64_t downloaded_bytes{};
};

struct SimRequest {
  std::string method, url, body, bearer;
  bool has_bearer = false;
  Header header;
  int64_t timeout_ms = 0;
};
// Implemented by the simulator.
Response sim_perform(const SimRequest &request);

class Session {
 public:
  void SetUrl(const Url &u) { r_.url = u.str(); }
  void SetBody(Body &&b) { r_.body = b.str(); }
  void SetBody(const Body &b) { r_.body = b.str(); }
  void SetHeader(const Header &h) { r_.header = h; }
  void UpdateHeader(const Header &h) {
    for (auto &[k, v] : h) r_.header[k] = v;
  }
  void SetBearer(const Bearer &b) {
    r_.bearer = b.sim_token();
    r_.has_bearer = true;
  }
  void SetTimeout(const Timeout &t) { r_.timeout_ms = t.ms.count(); }
  void SetOption(const Url &u) { SetUrl(u); }
  void SetOption(const Body &b) { r_.body = b.str(); }
  void SetOption(const BodyView &b) { r_.body = b.str(); }
  void SetOption(const Header &h) { UpdateHeader(h); }
  void SetOption(const Bearer &b) { SetBearer(b); }
  void SetOption(const ConnectTimeout &) {}
  void SetOption(const Timeout &t) { SetTimeout(t); }
  void SetOption(const VerifySsl &) {}
  void SetOption(const Redirect &) {}
  void SetOption(const UserAgent &) {}
  void SetOption(const Parameters &p) {
    char sep = '?';
    for (auto &x : p.v_) {
      r_.url += sep + x.key + "=" + x.value;
      sep = '&';
    }
  }
  Response Post() { return Do("POST"); }
  Response Get() { return Do("GET"); }
  Response Put() { return Do("PUT"); }
  Response Patch() { return Do("PATCH"); }
  Response Delete() { return Do("DELETE"); }
  Response Head() { return Do("HEAD"); }

 private:
  Response Do(const char *m) {
    SimRequest r = r_;
    r.method = m;
    auto it = r.header.find("Authorization");
    if (it != r.header.end() && it->second.rfind("Bearer ", 0) == 0) {
      r.has_bearer = true;
      r.bearer = it->second.substr(7);
    }
    return sim_perform(r);
  }
  SimRequest r_;
};

namespace priv {
template <class... Ts>
void set_options(Session &s, Ts &&...ts) {
  (s.SetOption(std::forward<Ts>(ts)), ...);
}
}  // namespace priv
#define CPR_STUB_VERB(Verb)                        \
  template <class... Ts>                           \
  Response Verb(Ts &&...ts) {                      \
    Session s;                                     \
    priv::set_options(s, std::forward<Ts>(ts)...); \
    return s.Verb();                               \
  }
CPR_STUB_VERB(Post)
CPR_STUB_VERB(Get)
CPR_STUB_VERB(Put)
CPR_STUB_VERB(Patch)
CPR_STUB_VERB(Delete)
CPR_STUB_VERB(Head)
#undef CPR_STUB_VERB

namespace status {
constexpr long HTTP_OK = 200, HTTP_CREATED = 201, HTTP_ACCEPTED = 202, HTTP_NO_CONTENT = 204,
               HTTP_BAD_REQUEST = 400, HTTP_UNAUTHORIZED = 401, HTTP_FORBIDDEN = 403,
               HTTP_NOT_FOUND = 404, HTTP_CONFLICT = 409, HTTP_TOO_MANY_REQUESTS = 429,
               HTTP_INTERNAL_SERVER_ERROR = 500, HTTP_BAD_GATEWAY = 502,
               HTTP_SERVICE_UNAVAILABLE = 503, HTTP_GATEWAY_TIMEOUT = 504;
inline bool is_success(long c) { return c >= 200 && c < 300; }
inline bool is_client_error(long c) { return c >= 400 && c < 500; }
inline bool is_server_error(long c) { return c >= 500 && c < 600; }
}  // namespace status
}  // namespace cpr
