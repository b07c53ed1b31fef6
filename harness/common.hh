// Shared plumbing of the conformance driver: a tiny JSON writer, the script
// tokens, value <-> text conversion, and the per-session interface.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

// ---- JSON ----------------------------------------------------------------
// Text is written as one \u00XX (or ASCII) character per byte, so that a TLA+
// string of length n stands for n bytes.
std::string jstr(const std::string& s);
std::string jint(long v);
std::string jbool(bool b);
std::string num(double x);           // canonical text of a double
inline std::string jnum(double x) { return jstr(num(x)); }
std::string jarr(const std::vector<std::string>& v);
inline std::string jpair(const std::string& a, const std::string& b) {
  return "[" + a + "," + b + "]";
}
std::string jints(const std::vector<int>& v);
std::string jstrs(const std::vector<std::string>& v);
struct Obj {
  std::string b = "{";
  Obj& kv(const std::string& k, const std::string& json) {
    if (b.size() > 1) b += ",";
    b += jstr(k) + ":" + json;
    return *this;
  }
  std::string str() const { return b + "}"; }
};

// ---- script ----------------------------------------------------------------
typedef std::vector<std::string> Toks;
Toks split_ws(const std::string& line);       // percent-decoded tokens
std::vector<int> ints(const std::string& s);  // "1,2" -> {1,2}; "-" -> {}
std::vector<std::string> commas(const std::string& s);

// Runs a command line program that was built next to the driver, its output
// going to a file; says how it ended: ok, refused or signal.
std::string run_program(const std::string& name, const std::vector<std::string>& args, const std::string& out);

struct BadOp : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// ---- values ----------------------------------------------------------------
template <typename T>
T val_from(const std::string& s) {
  if constexpr (std::is_same_v<T, bool>) {
    return s == "1";
  } else if constexpr (std::is_same_v<T, int>) {
    return std::stoi(s);
  } else if constexpr (std::is_same_v<T, double>) {
    return std::stod(s);
  } else {
    return s;
  }
}
template <typename T>
std::string val_to(const T& v) {
  if constexpr (std::is_same_v<T, bool>) {
    return v ? "1" : "0";
  } else if constexpr (std::is_same_v<T, int>) {
    return std::to_string(v);
  } else if constexpr (std::is_same_v<T, double>) {
    return num(v);
  } else {
    return v;
  }
}
template <typename T>
std::string jval(const T& v) {
  return jstr(val_to<T>(v));
}

// ---- sessions --------------------------------------------------------------
// One session = one object under test.  `exec` performs an op and returns the
// JSON fields describing its result ("" for none); `state` is the projection
// of the whole object logged after every op.
struct Session {
  std::mt19937 prng;
  virtual ~Session() = default;
  virtual void exec(const Toks& t, Obj& out) = 0;
  virtual void state(Obj& out) = 0;
  // Outcome text of a random op (used by `hist`): run `t`, return a short
  // description of what was chosen.
  virtual std::string outcome(const Toks& t) { throw BadOp("no outcome: " + t[0]); }
  // Should the state be logged after this op?
  virtual bool logs_state(const Toks& t) { return true; }
};
std::unique_ptr<Session> make_session(const std::string& kind, const Toks& args);
std::unique_ptr<Session> make_crp(const Toks&);
std::unique_ptr<Session> make_dist(const Toks&);
std::unique_ptr<Session> make_model(const Toks&);
std::unique_ptr<Session> make_gendb(const Toks&);
std::unique_ptr<Session> make_io(const Toks&);
std::unique_ptr<Session> make_misc(const Toks&);
