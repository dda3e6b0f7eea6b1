// Operations on library objects, compiled with instrumentation like the repository's own code.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace ops {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t k) : s(k) {}
  uint64_t u64() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return (uint32_t)(((u64() >> 32) * n) >> 32); }
  double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }          // [0, 1)
  double sym(double scale) { return scale * (2 * unit() - 1); }
};

// ---- one of each kind of object, all determined by the key
struct Bank;
std::shared_ptr<const Bank> make_bank(uint64_t key);
int query_count();
const char *query_name(int q);
std::string query(const Bank &b, int q, double x);  // bytes of the result, or the error

// ---- a single user's program over its own instances; determined by the key
// `turn` is called between steps.  Lines starting with "BAD " report a broken promise.
std::vector<std::string> program(uint64_t key, int steps, void (*turn)());

// ---- identifiers
std::string new_identifier(int how);  // 16 bytes; "!..." on a broken promise
constexpr int IDENTIFIER_KINDS = 4;

// ---- event schedules with a payload that owns a token
struct Token {
  uint64_t id;
};
struct Schedule {
  virtual ~Schedule() = default;
  virtual void insert(int64_t t, std::shared_ptr<Token> token, const std::string &text) = 0;
  virtual void top(int64_t *t, uint64_t *id, std::string *text) const = 0;
  virtual void pop() = 0;
  // Inserts and pops n events at time t, earlier than everything held. Returns how many came back wrong.
  virtual uint64_t churn(uint64_t n, int64_t t) = 0;
  // Schedules n events just before t at `ties` different times, then pops them; counts what came out wrong.
  virtual uint64_t fill(uint64_t n, int64_t t, uint32_t ties) = 0;
  virtual size_t size() const = 0;
  virtual uint64_t limit() const = 0;
  virtual std::unique_ptr<Schedule> copy() const = 0;
};
std::unique_ptr<Schedule> make_schedule(int kind);  // 0: default counter, 1: 8-bit counter

// ---- curves and trajectories
struct Curve {
  virtual ~Curve() = default;
  // Point number `key` at time/position t; flaw: 0 none, 1 foreign reference frame, 2 foreign
  // point frame, 3 unframed.
  virtual void append(uint64_t key, double t, int flaw) = 0;
  virtual void append_list(const std::vector<uint64_t> &keys, const std::vector<double> &t) = 0;
  virtual std::string digest(int queries) const = 0;  // everything observable
  virtual std::string at(double x) const = 0;         // one query, a fraction of the way along
  virtual std::string broken() const = 0;             // empty: points and segments in step
  virtual size_t points() const = 0;
  virtual std::unique_ptr<Curve> fresh() const = 0;   // empty, same frames
  virtual std::unique_ptr<Curve> copy() const = 0;
  virtual bool assign(const Curve &other) = 0;        // takes its points and frames; false: of another kind
  virtual bool timed() const = 0;                     // times must increase
};
constexpr int CURVE_KINDS = 4;
std::unique_ptr<Curve> make_curve(int kind, uint64_t key, bool framed);

// ---- messages
constexpr int MESSAGE_KINDS = 14;
const char *message_name(int kind);
std::string encode(int kind, uint64_t key);
struct Decoded {
  bool parsed = false, threw = false;
  std::string error;    // what() when it threw
  std::string problem;  // broken promise
  std::string digest;
};
Decoded decode(int kind, const std::string &bytes);

}  // namespace ops
