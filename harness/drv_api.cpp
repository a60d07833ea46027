// Driver for the public functions: agglomeration of one level (flat call and
// call with argument structures), coarse graph, hierarchy of levels, wall distance, cell filter.
#include <optional>
#include <type_traits>
#include <unordered_set>

#include "CoMMA/CoMMA.h"
#include "common.h"

using namespace drv;

template<class I, class R, class T>
struct Call {
  std::vector<I> rp, col;
  std::vector<R> w, vol;
  std::vector<std::vector<R>> cen;
  std::vector<R> prio;
  std::vector<I> comp;
  std::vector<T> bnd;
  bool build, aniso, odd;
  R thr;
  int seeds;
  std::vector<I> lidx, lines;
  bool corr;
  T dim, goal, mn, mx;
  int ar;
  T sing;
  std::optional<I> maxc;
  int coup;
  bool force;
  T iter;
  int nbh;
  void read(In &in) {
    rp = in.vec<I>();
    col = in.vec<I>();
    w = in.vec<R>();
    vol = in.vec<R>();
    cen = in.vecs<R>();
    prio = in.vec<R>();
    comp = in.vec<I>();
    bnd = in.vec<T>();
    build = in.get<bool>();
    aniso = in.get<bool>();
    odd = in.get<bool>();
    thr = in.get<R>();
    seeds = in.get<int>();
    lidx = in.vec<I>();
    lines = in.vec<I>();
    corr = in.get<bool>();
    dim = in.get<T>();
    goal = in.get<T>();
    mn = in.get<T>();
    mx = in.get<T>();
    ar = in.get<int>();
    sing = in.get<T>();
    const long lim = in.get<long>();
    if (lim > -1000) maxc = static_cast<I>(lim);
    coup = in.get<int>();
    force = in.get<bool>();
    iter = in.get<T>();
    nbh = in.get<int>();
  }
  bool operator==(const Call &o) const {
    return rp == o.rp && col == o.col && w == o.w && vol == o.vol
      && cen == o.cen && prio == o.prio && comp == o.comp && bnd == o.bnd;
  }
};

template<class I, class R, class T>
void agglomerate(const Call<I, R, T> &c, const int variant, std::vector<I> f2c) {
  using namespace comma;
  const auto before = c;
  // Initial content of the output
  const auto f2c0 = f2c;
  auto lidx = c.lidx, lines = c.lines;
  std::string st = "ok";
  try {
    switch (variant) {
      case 0:  // Flat, all arguments
        agglomerate_one_level<I, R, T>(
          c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.comp, c.bnd, c.build,
          c.aniso, c.odd, c.thr, static_cast<CoMMASeedsPoolT>(c.seeds), f2c,
          lidx, lines, c.corr, c.dim, c.goal, c.mn, c.mx,
          static_cast<CoMMAAspectRatioT>(c.ar), c.sing, c.maxc,
          static_cast<CoMMACellCouplingT>(c.coup), c.force, c.iter,
          static_cast<CoMMANeighbourhoodT>(c.nbh)
        );
        break;
      case 1: {  // Structures, all arguments
        agglomerate_one_level<I, R, T>(
          GraphArgs<I, R, T>(
            c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.bnd, c.dim
          ),
          AgglomerationArgs<I, R, T>(
            c.goal, c.mn, c.mx, c.corr, static_cast<CoMMASeedsPoolT>(c.seeds),
            static_cast<CoMMAAspectRatioT>(c.ar), c.sing, c.iter,
            static_cast<CoMMANeighbourhoodT>(c.nbh)
          ),
          AnisotropicArgs<I, R, T>(
            c.aniso, c.comp, c.build, c.odd, c.thr, c.maxc,
            static_cast<CoMMACellCouplingT>(c.coup), c.force
          ),
          f2c, lidx, lines
        );
        break;
      }
      case 2:  // Flat, default values
        agglomerate_one_level<I, R, T>(
          c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.comp, c.bnd, c.build,
          c.aniso, c.odd, c.thr, static_cast<CoMMASeedsPoolT>(c.seeds), f2c,
          lidx, lines, c.corr, c.dim, c.goal, c.mn, c.mx
        );
        break;
      case 3:  // Structures, default values
        agglomerate_one_level<I, R, T>(
          GraphArgs<I, R, T>(
            c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.bnd, c.dim
          ),
          AgglomerationArgs<I, R, T>(
            c.goal, c.mn, c.mx, c.corr, static_cast<CoMMASeedsPoolT>(c.seeds)
          ),
          AnisotropicArgs<I, R, T>(c.aniso, c.comp), f2c, lidx, lines
        );
        break;
      default:
        std::exit(4);
    }
  } catch (const std::invalid_argument &) {
    st = "inv";
  } catch (...) {
    st = "exc";
  }
  Out o;
  o.text("st", st);
  o.vec("f2c", f2c);
  o.vec("lidx", lidx);
  o.vec("lines", lines);
  o.flag("kept", c == before);
  o.flag("f2ckept", f2c == f2c0);
  o.flag("lineskept", lidx == c.lidx && lines == c.lines);
  o.done();
}

template<class I, class R, class T>
void agglomerate(In &in) {
  Call<I, R, T> c;
  c.read(in);
  const int variant = in.get<int>();
  agglomerate(c, variant, in.vec<I>());
}

template<class I, class R, class T>
void coarse_graph(In &in) {
  const auto f2c = in.vec<I>(), rp = in.vec<I>(), col = in.vec<I>();
  const auto w = in.vec<R>(), vol = in.vec<R>();
  const auto cen = in.vecs<R>();
  const auto prio = in.vec<R>();
  const auto bnd = in.vec<T>();
  const long junk = in.get<long>();
  std::vector<I> crp(junk, 7), ccol(junk, 9);
  std::vector<R> cw(junk, 3), cvol(junk, 5), cprio(junk, 1e9);
  std::vector<std::vector<R>> ccen(junk, std::vector<R>{1});
  std::vector<T> cbnd(junk, 100);
  comma::build_coarse_graph<I, R, T>(
    f2c, rp, col, w, vol, cen, prio, bnd, crp, ccol, cw, cvol, ccen, cprio, cbnd
  );
  Out o;
  o.text("st", "ok");
  o.vec("rp", crp);
  o.vec("col", ccol);
  o.vec("w", cw);
  o.vec("vol", cvol);
  o.vecs("cen", ccen);
  o.vec("prio", cprio);
  o.vec("bnd", cbnd);
  o.done();
}

// Agglomeration repeated on the coarse graph, until there is nothing left to
// agglomerate, with the lines of each level handed to the next one
template<class I, class R, class T>
void hierarchy(In &in) {
  using namespace comma;
  Call<I, R, T> c;
  c.read(in);
  const long most = in.get<long>();
  const bool rebuild = in.get<bool>();
  std::vector<std::vector<I>> f2cs, lidxs, lines, rps, cols;
  std::vector<std::vector<R>> ws, vols, prios;
  std::vector<std::vector<T>> bnds;
  while (static_cast<long>(f2cs.size()) < most && !c.col.empty()) {
    std::vector<I> f2c;
    agglomerate_one_level<I, R, T>(
      c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.comp, c.bnd, c.build, c.aniso,
      c.odd, c.thr, static_cast<CoMMASeedsPoolT>(c.seeds), f2c, c.lidx, c.lines,
      c.corr, c.dim, c.goal, c.mn, c.mx, static_cast<CoMMAAspectRatioT>(c.ar),
      c.sing, c.maxc, static_cast<CoMMACellCouplingT>(c.coup), c.force, c.iter,
      static_cast<CoMMANeighbourhoodT>(c.nbh)
    );
    f2cs.push_back(f2c);
    lidxs.push_back(c.lidx);
    lines.push_back(c.lines);
    bool good = f2c.size() == c.vol.size();
    for (const auto x : f2c) good = good && x < static_cast<I>(f2c.size());
    if (!good) break;
    Call<I, R, T> d = c;
    build_coarse_graph<I, R, T>(
      f2c, c.rp, c.col, c.w, c.vol, c.cen, c.prio, c.bnd, d.rp, d.col, d.w,
      d.vol, d.cen, d.prio, d.bnd
    );
    rps.push_back(d.rp);
    cols.push_back(d.col);
    ws.push_back(d.w);
    vols.push_back(d.vol);
    prios.push_back(d.prio);
    bnds.push_back(d.bnd);
    if (d.vol.size() >= c.vol.size()) break;
    c = d;
    c.build = rebuild;
    if (rebuild) {
      c.comp.clear();
      for (I x = 0; x < static_cast<I>(c.vol.size()); ++x) c.comp.push_back(x);
    } else {
      c.comp.clear();
    }
  }
  Out o;
  o.text("st", "ok");
  o.vecs("f2cs", f2cs);
  o.vecs("lidxs", lidxs);
  o.vecs("liness", lines);
  o.vecs("rps", rps);
  o.vecs("cols", cols);
  o.vecs("ws", ws);
  o.vecs("vols", vols);
  o.vecs("prios", prios);
  o.vecs("bnds", bnds);
  o.done();
}

template<class I, class D>
void wall(In &in) {
  const auto rp = in.vec<I>(), col = in.vec<I>(), wl = in.vec<I>();
  std::vector<D> d(in.get<long>(), 42);
  comma::compute_neighbourhood_based_wall_distance<I, D>(rp, col, wl, d);
  Out o;
  o.text("st", "ok");
  o.vec("dist", d);
  o.done();
}

template<class I, class T>
void filter(In &in) {
  const auto rp = in.vec<I>();
  const auto bnd = in.vec<T>();
  const auto al = in.vec<T>();
  std::vector<I> res(in.get<long>(), 42);
  comma::filter_cells_by_n_edges<I, T>(
    rp, bnd, std::unordered_set<T>(al.begin(), al.end()), res
  );
  Out o;
  o.text("st", "ok");
  o.vec("cells", res);
  o.done();
}

void perform(const std::string &op, In &in) {
  const int ty = in.get<int>();
  if (op == "A") {
    switch (ty) {
      case 0: return agglomerate<unsigned long, double, int>(in);
      case 1: return agglomerate<unsigned int, double, int>(in);
      case 2: return agglomerate<long, double, long>(in);
      case 3: return agglomerate<int, double, int>(in);
      default: std::exit(4);
    }
  }
  if (op == "G") {
    if (ty == 0) return coarse_graph<unsigned long, double, int>(in);
    return coarse_graph<int, double, long>(in);
  }
  if (op == "H") {
    if (ty == 0) return hierarchy<unsigned long, double, int>(in);
    return hierarchy<int, double, int>(in);
  }
  if (op == "W") {
    if (ty == 0) return wall<unsigned long, long>(in);
    return wall<unsigned int, int>(in);
  }
  if (op == "F") {
    if (ty == 0) return filter<unsigned long, int>(in);
    return filter<int, long>(in);
  }
  std::exit(4);
}

#ifndef DRV_NO_MAIN
int main(int argc, char **argv) { return run(argc, argv, perform); }
#endif
