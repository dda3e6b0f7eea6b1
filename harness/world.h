// Simulated environment: authorization server, user, view server, network.
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "sim/sim.h"

namespace cpr {
struct SimRequest;
class Response;
}

namespace world {

struct Http {
  int idx = 0;
  int task = 0, proc = 0;
  std::string method, url, body, bearer;
  bool has_bearer = false;
  std::map<std::string, std::string> header;
  uint64_t send_t = 0, send_seq = 0;
  uint64_t srv_t = 0, srv_seq = 0;  // 0: never reached the server
  uint64_t ret_t = 0, ret_seq = 0;  // 0: not returned
  long srv_status = 0;              // the server's own answer
  long cli_status = 0;              // what the client saw
  bool cli_error = false;           // transport error flag the client saw
  std::string srv_text, cli_text;
  // auth
  int dev = -1;              // device code this request concerns
  bool url_shown = false;    // verification URL visible when a poll was sent
  // view
  std::string session;       // session created / addressed
  std::string update_id, link;
  int accepted = -1;         // index into accepted[]
};

struct Device {
  std::string code, user_code, uri, uri_complete;
  int interval = 0, expires = 0, slow_downs = 0;
  uint64_t issued_t = 0;
  uint64_t approve_t = 0;  // 0: never
  bool denied = false;
  bool used = false;
  int polls = 0;
};

struct Token {
  uint64_t issued_seq = 0;
  bool revoked = false;
  uint64_t revoked_seq = 0;
  uint64_t expires_t = 0;  // 0: does not expire by itself
  int uses = 0;
};

struct Session {
  std::string id;
  int created_by = -1;  // Http idx
};

struct Accepted {
  std::string session, update_id, body;
  uint64_t seq = 0;
  int http = -1;
};

struct Params {
  // expected identity of the client
  std::string auth_server, client_id, scope, audience, view_base;
  // network
  uint64_t lat_min = sim::MS, lat_max = 50 * sim::MS;
  uint32_t net_num = 0, net_den = 32;  // P(network fault) per request
  bool allow_trunc = true;
  // device flow
  bool slow_down = false;
  int interval_lo = 1, interval_hi = 5, expires_lo = 10, expires_hi = 120;
  uint32_t never_num = 0, never_den = 8;   // P(user never approves)
  uint32_t deny_num = 0, deny_den = 16;
  uint64_t approve_max = 20 * sim::SEC;
  // view server
  uint32_t revoke_num = 0, revoke_den = 16;  // P(401 and revocation) per request
  uint64_t token_life_max = 0;               // 0: tokens do not expire
  uint32_t verr_num = 0, verr_den = 16;      // P(error answer) per view request
  uint32_t long_token_num = 0, long_token_den = 8;
};

extern Params P;
// When set, answers view requests at once and unrecorded (long lives).
extern std::function<cpr::Response(const cpr::SimRequest &)> lean;
extern std::deque<Http> http;
extern std::vector<Device> devices;
extern std::map<std::string, Token> tokens;
extern std::vector<Session> sessions;
extern std::vector<Accepted> accepted;

void reset();
std::string new_token_string();
// Pretend the server issued this token earlier.
std::string issue_token();
void revoke(const std::string &token, const char *why);
std::map<std::string, std::string> parse_flat_json(const std::string &s, bool *ok);
std::vector<int> requests_of(int task, uint64_t from_seq, uint64_t to_seq);
bool exists_path(const std::string &p);
std::string read_file(const std::string &p);
void write_file(const std::string &p, const std::string &data);
void make_dirs(const std::string &p);
std::string show(const std::string &s);  // printable, shortened

}  // namespace world
