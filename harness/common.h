// Input and output of the drivers: one scenario per line, as numbers separated
// by spaces (a vector is its size followed by its elements); one JSON object
// per line as output, written at once so that nothing is lost if the code under
// test crashes.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace drv {

inline FILE *g_out = nullptr;
inline thread_local long g_id = -1;
// Where the results of this thread go, if not to the output
inline thread_local std::string *g_sink = nullptr;

inline void emit(const std::string &s) {
  if (g_sink) {
    *g_sink = s;
    return;
  }
  std::fputs(s.c_str(), g_out);
  std::fputc('\n', g_out);
  std::fflush(g_out);
}

// Scenario running, whatever the thread
inline long g_line = -1;

extern "C" inline void on_alarm(int) {
  char buf[64];
  const int n =
    std::snprintf(buf, sizeof buf, "{\"id\":%ld,\"st\":\"timeout\"}\n", g_line);
  if (write(fileno(g_out), buf, n) < 0) {}
  _exit(3);
}

// Limit of processor time, so that the load of the machine does not matter
inline void limit(const long seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

struct In {
  std::istringstream s;
  explicit In(const std::string &l) : s(l) {}
  template<class T>
  T get() {
    if constexpr (std::is_same_v<T, bool>) {
      int x = 0;
      s >> x;
      return x != 0;
    } else {
      T x{};
      s >> x;
      if (!s) {
        std::fprintf(stderr, "bad input line\n");
        std::exit(4);
      }
      return x;
    }
  }
  template<class T>
  std::vector<T> vec() {
    const auto n = get<long>();
    std::vector<T> v;
    v.reserve(n);
    for (long i = 0; i < n; ++i) v.push_back(get<T>());
    return v;
  }
  template<class T>
  std::vector<std::vector<T>> vecs() {
    const auto n = get<long>();
    std::vector<std::vector<T>> v;
    v.reserve(n);
    for (long i = 0; i < n; ++i) v.push_back(vec<T>());
    return v;
  }
};

struct Out {
  std::string s;
  bool first = true;
  Out() : s("{") { num("id", g_id); }
  void key(const char *k) {
    if (!first) s += ',';
    first = false;
    s += '"';
    s += k;
    s += "\":";
  }
  template<class T>
  static std::string str(const T x) {
    if constexpr (std::is_floating_point_v<T>) {
      if (!(x == x)) return "\"nan\"";
      if (x > 1e300) return "\"inf\"";
      if (x < -1e300) return "\"-inf\"";
      char buf[40];
      std::snprintf(buf, sizeof buf, "%.17g", static_cast<double>(x));
      return buf;
    } else {
      // Whatever does not fit is just wrong
      if (x > T{0}
          && static_cast<unsigned long long>(x) > 2000000000ULL)
        return "2000000000";
      if constexpr (std::is_signed_v<T>)
        if (static_cast<long long>(x) < -2000000000LL) return "-2000000000";
      return std::to_string(x);
    }
  }
  template<class T>
  void num(const char *k, const T x) {
    key(k);
    s += str(x);
  }
  void text(const char *k, const std::string &x) {
    key(k);
    s += '"' + x + '"';
  }
  void flag(const char *k, const bool x) {
    key(k);
    s += x ? "true" : "false";
  }
  template<class V>
  static std::string list(const V &v) {
    std::string r = "[";
    bool f = true;
    for (const auto &x : v) {
      if (!f) r += ',';
      f = false;
      r += str(x);
    }
    return r + "]";
  }
  template<class V>
  void vec(const char *k, const V &v) {
    key(k);
    s += list(v);
  }
  template<class V>
  void vecs(const char *k, const V &v) {
    key(k);
    s += '[';
    bool f = true;
    for (const auto &x : v) {
      if (!f) s += ',';
      f = false;
      s += list(x);
    }
    s += ']';
  }
  void raw(const char *k, const std::string &x) {
    key(k);
    s += x;
  }
  void done() { emit(s + "}"); }
};

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};

// driver INPUT OUTPUT SKIP SECONDS
template<class F>
int run(int argc, char **argv, F one) {
  if (argc < 5) return 4;
  static NullBuf nb;
  std::cout.rdbuf(&nb);
  std::cerr.rdbuf(&nb);
  std::ifstream in(argv[1]);
  g_out = std::fopen(argv[2], "a");
  if (!in || !g_out) return 4;
  long skip = std::atol(argv[3]);
  const unsigned sec = std::atoi(argv[4]);
  std::signal(SIGPROF, on_alarm);
  std::string line;
  while (std::getline(in, line)) {
    if (skip > 0) {
      --skip;
      continue;
    }
    In i(line);
    const auto op = i.get<std::string>();
    g_line = g_id = i.get<long>();
    limit(sec);
    try {
      one(op, i);
    } catch (const std::invalid_argument &) {
      Out o;
      o.text("st", "inv");
      o.done();
    } catch (const std::exception &) {
      Out o;
      o.text("st", "exc");
      o.done();
    } catch (...) {
      Out o;
      o.text("st", "exc");
      o.done();
    }
    limit(0);
  }
  std::fclose(g_out);
  // The standard streams still use nb
  _exit(0);
}

}  // namespace drv
