// Driver for simultaneous calls: the functions of drv_api called by several
// threads at once, each with its own arguments (T) or all with the same arrays
// as input (S).  The calls alone are asked for with the operations of drv_api,
// and S with one thread.  Nothing here orders the calls of different threads.
#define DRV_NO_MAIN
#include <atomic>
#include <thread>

#include "drv_api.cpp"

struct Events {
  // No ordering wanted: it would hide accesses that are not ordered
  std::atomic<long> clock{0};
  std::atomic<int> ready{0};
  int threads;
  std::vector<std::vector<std::pair<long, std::vector<long>>>> seen;
  explicit Events(const int n) : threads(n), seen(n) {}
  void start() {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < threads)
      std::this_thread::yield();
  }
  void note(const int t, const long req, const long end) {
    seen[t].emplace_back(
      clock.fetch_add(1, std::memory_order_relaxed),
      std::vector<long>{t + 1, req + 1, end}
    );
  }
  std::vector<std::vector<long>> all() const {
    std::vector<std::pair<long, std::vector<long>>> v;
    for (const auto &s : seen) v.insert(v.end(), s.begin(), s.end());
    std::sort(v.begin(), v.end());
    std::vector<std::vector<long>> r;
    for (const auto &x : v) r.push_back(x.second);
    return r;
  }
};

void result(const Events &ev, const std::vector<std::string> &ans) {
  std::string s = "[";
  for (const auto &a : ans) s += (s.size() > 1 ? "," : "") + a;
  Out o;
  o.text("st", "ok");
  o.vecs("ev", ev.all());
  o.raw("ans", s + "]");
  o.done();
}

// As the loop of run does
template<class F>
void guarded(F f) {
  std::string st;
  try {
    f();
  } catch (const std::invalid_argument &) {
    st = "inv";
  } catch (...) {
    st = "exc";
  }
  if (!st.empty()) {
    Out o;
    o.text("st", st);
    o.done();
  }
}

// Requests "thread operation id ..." separated by bars
void together(In &in) {
  const int n = in.get<int>();
  std::string rest, piece;
  std::getline(in.s, rest);
  std::istringstream ss(rest);
  std::vector<std::vector<std::pair<long, std::string>>> todo(n);
  long k = 0;
  while (std::getline(ss, piece, '|')) {
    In i(piece);
    const auto t = i.get<int>();
    std::string line;
    std::getline(i.s, line);
    todo[t].emplace_back(k++, line);
  }
  std::vector<std::string> ans(k);
  Events ev(n);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      ev.start();
      for (const auto &[r, line] : todo[t]) {
        std::string got;
        g_sink = &got;
        In i(line);
        const auto op = i.get<std::string>();
        g_id = i.get<long>();
        ev.note(t, r, 0);
        guarded([&]() { perform(op, i); });
        ev.note(t, r, 1);
        g_sink = nullptr;
        ans[r] = got;
      }
    });
  for (auto &t : ts) t.join();
  result(ev, ans);
}

// All the functions on one mesh, by several threads
template<class I, class R, class T>
void shared(In &in) {
  const int n = in.get<int>();
  Call<I, R, T> cc;
  cc.read(in);
  const auto f2c = in.vec<I>();
  const auto al = in.vec<T>();
  const auto &c = cc;
  constexpr int NB = 5;
  std::vector<std::string> ans(NB * n);
  Events ev(n);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      ev.start();
      for (int j = 0; j < NB; ++j) {
        // not all in the same order
        const int what = (j + 2 * t) % NB;
        const long r = t * NB + what;
        std::string got;
        g_sink = &got;
        g_id = what;
        ev.note(t, r, 0);
        guarded([&]() {
          Out o;
          o.text("st", "ok");
          if (what < 2) return agglomerate<I, R, T>(c, what, {});
          if (what == 2) {
            std::vector<I> crp, ccol;
            std::vector<R> cw, cvol, cprio;
            std::vector<std::vector<R>> ccen;
            std::vector<T> cbnd;
            comma::build_coarse_graph<I, R, T>(
              f2c, c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.bnd, crp, ccol, cw,
              cvol, ccen, cprio, cbnd
            );
            o.vec("rp", crp);
            o.vec("col", ccol);
            o.vec("w", cw);
            o.vec("vol", cvol);
            o.vecs("cen", ccen);
            o.vec("prio", cprio);
            o.vec("bnd", cbnd);
          } else if (what == 3) {
            std::vector<long> d;
            comma::compute_neighbourhood_based_wall_distance<I, long>(
              c.rp, c.col, c.comp, d
            );
            o.vec("dist", d);
          } else {
            std::vector<I> res;
            comma::filter_cells_by_n_edges<I, T>(
              c.rp, c.bnd, std::unordered_set<T>(al.begin(), al.end()), res
            );
            o.vec("cells", res);
          }
          o.done();
        });
        ev.note(t, r, 1);
        g_sink = nullptr;
        ans[r] = got;
      }
    });
  for (auto &t : ts) t.join();
  result(ev, ans);
}

int main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &op, In &in) {
    if (op == "T") return together(in);
    if (op == "S") {
      if (in.get<int>() == 0)
        return shared<unsigned long, double, int>(in);
      return shared<int, double, long>(in);
    }
    perform(op, in);
  });
}
