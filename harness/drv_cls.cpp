// Driver for the classes of the library: seeds pools, neighbourhoods, aspect
// ratios, coarse-cell container, growth of one coarse cell, anisotropic lines.
#include <deque>
#include <memory>
#include <optional>
#include <unordered_set>

#include "CoMMA/ARComputer.h"
#include "CoMMA/Agglomerator.h"
#include "CoMMA/CoMMA.h"
#include "CoMMA/Coarse_Cell_Container.h"
#include "CoMMA/Dual_Graph.h"
#include "CoMMA/Neighbourhood.h"
#include "CoMMA/Seeds_Pool.h"
#include "common.h"

using namespace drv;
using namespace comma;

using I = unsigned long;
using R = double;
using T = int;

using Graph_t = Dual_Graph<I, R, T>;
using Pool_t = Seeds_Pool<I, R, T>;
using Cont_t = Coarse_Cell_Container<I, R, T>;

// A mesh: it must outlive the graph, which keeps references
struct Mesh {
  std::vector<I> rp, col;
  std::vector<R> w, vol;
  std::vector<std::vector<R>> cen;
  std::vector<R> prio;
  std::vector<I> comp;
  std::vector<T> bnd;
  T dim;
  std::shared_ptr<Graph_t> g;
  explicit Mesh(In &in) :
    rp(in.vec<I>()),
    col(in.vec<I>()),
    w(in.vec<R>()),
    vol(in.vec<R>()),
    cen(in.vecs<R>()),
    prio(in.vec<R>()),
    comp(in.vec<I>()),
    bnd(in.vec<T>()),
    dim(in.get<T>()) {
    g = std::make_shared<Graph_t>(
      static_cast<I>(rp.size() - 1), rp, col, w, vol, cen, bnd, dim, comp
    );
  }
};

std::shared_ptr<Pool_t> make_pool(
  const int kind, const bool one, const std::vector<T> &bnd,
  const std::vector<R> &prio
) {
  if (kind == 0)
    return std::make_shared<Seeds_Pool_Boundary_Priority<I, R, T>>(
      bnd, prio, one
    );
  return std::make_shared<Seeds_Pool_Neighbourhood_Priority<I, R, T>>(
    bnd, prio, one
  );
}

// Seeds pool: history of operations, one answer each
//  0 initialize, 1 choose (the cell is then agglomerated if flag),
//  2 update(list), 3 ordered update(set), 4 set top, 5 need initialization,
//  6 agglomerate(list), 7 is empty at level, 8 is empty
void pool(In &in) {
  const int kind = in.get<int>();
  const bool one = in.get<bool>();
  const auto bnd = in.vec<T>();
  const auto prio = in.vec<R>();
  std::vector<bool> agg(bnd.size(), false);
  auto p = make_pool(kind, one, bnd, prio);
  const long nops = in.get<long>();
  std::vector<long> ans;
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const auto arg = in.vec<long>();
    long a = 0;
    switch (op) {
      case 0: p->initialize(); break;
      case 1: {
        const auto s = p->choose_new_seed(agg);
        a = s.has_value() ? static_cast<long>(*s) + 1 : 0;
        if (s.has_value() && arg[0]) agg.at(*s) = true;
        break;
      }
      case 2: p->update(std::deque<I>(arg.begin(), arg.end())); break;
      case 3:
        p->order_new_seeds_and_update(
          std::unordered_set<I>(arg.begin(), arg.end())
        );
        break;
      case 4: p->set_top_queue(static_cast<T>(arg[0])); break;
      case 5: a = p->need_initialization(agg) ? 1 : 0; break;
      case 6:
        for (const auto c : arg) agg.at(c) = true;
        break;
      default: std::exit(4);
    }
    ans.push_back(a);
  }
  Out o;
  o.text("st", "ok");
  o.vec("ans", ans);
  o.done();
}

// Neighbourhood: additions on copies; every operation names an object
//  0 add(cell, neighbours), 1 copy to a new object, 2 get candidates
void neighbourhood(In &in) {
  const int kind = in.get<int>();
  const T dim = in.get<T>();
  const auto al = in.vec<I>();
  const auto prio = in.vec<R>();
  const std::unordered_set<I> allowed(al.begin(), al.end());
  std::unique_ptr<NeighbourhoodCreator<I, R, T>> cr;
  if (kind == 0) cr.reset(new NeighbourhoodExtendedCreator<I, R, T>());
  else cr.reset(new NeighbourhoodPureFrontCreator<I, R, T>());
  std::vector<std::shared_ptr<Neighbourhood<I, R, T>>> obj;
  obj.push_back(cr->create(allowed, prio, dim));
  const long nops = in.get<long>();
  std::vector<std::vector<long>> ans;
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const long who = in.get<long>();
    const long cell = in.get<long>();
    const auto nbs = in.vec<I>();
    if (op == 0) obj.at(who)->update(static_cast<I>(cell), nbs);
    else if (op == 1) obj.push_back(cr->clone(obj.at(who)));
    std::vector<long> a;
    for (const auto &x : obj.at(who)->get_candidates())
      a.push_back(static_cast<long>(x) + 1);
    ans.push_back(a);
  }
  Out o;
  o.text("st", "ok");
  o.vecs("ans", ans);
  o.done();
}

std::shared_ptr<ARComputer<I, R, T>> make_ar(
  const int t, const T dim, std::shared_ptr<Graph_t> g
) {
  switch (t) {
    case 0:
      if (dim == 2) return std::make_shared<ARDiamOverRadius<I, R, T, 2>>(g);
      return std::make_shared<ARDiamOverRadius<I, R, T, 3>>(g);
    case 1: return std::make_shared<ARDiamOverMinEdge<I, R, T>>(g);
    case 2: return std::make_shared<ARDiameter<I, R, T>>(g);
    case 3: return std::make_shared<AROverMeasure<I, R, T>>(g);
    case 4: return std::make_shared<AROverInternalWeights<I, R, T>>(g);
    case 5:
      if (dim == 2)
        return std::make_shared<ARExternalWeightOverRadius<I, R, T, 2>>(g);
      return std::make_shared<ARExternalWeightOverRadius<I, R, T, 3>>(g);
    case 6: return std::make_shared<ARExternalWeights<I, R, T>>(g);
    case 7:
      if (dim == 2)
        return std::make_shared<ARMaxBaryDistanceOverRadius<I, R, T, 2>>(g);
      return std::make_shared<ARMaxBaryDistanceOverRadius<I, R, T, 3>>(g);
    case 8:
      return std::make_shared<ARMaxOverMinBaryDistance<I, R, T>>(g, 1e-12);
    case 9: return std::make_shared<ARExternalWeightOverRadius<I, R, T, 1>>(g);
    default: std::exit(4);
  }
}

// Aspect ratios: a sequence of cells added one at a time
void features(In &in) {
  Mesh m(in);
  const int t = in.get<int>();
  const auto seq = in.vec<I>();
  // Other cells tried and discarded at each step
  const auto alt = in.vec<I>();
  const auto ar = make_ar(t, m.dim, m.g);
  CellFeatures<I, R, T> f(seq.at(0), m.g);
  std::unordered_set<I> cc{seq.at(0)};
  std::vector<R> v_ar, v_meas, v_ext, v_int, v_diam, v_edge;
  std::vector<T> v_sh, v_nint;
  std::vector<std::vector<R>> v_sum;
  std::vector<std::vector<T>> v_fac;
  for (size_t k = 1; k < seq.size(); ++k) {
    T sh = 0;
    R a = 0;
    if (alt.at(k) != seq[k] && cc.count(alt[k]) == 0) {
      CellFeatures<I, R, T> other{};
      ar->compute_and_update_features(alt[k], f, cc, sh, a, other);
      sh = 0;
      a = 0;
    }
    CellFeatures<I, R, T> nf{};
    ar->compute_and_update_features(seq[k], f, cc, sh, a, nf);
    cc.insert(seq[k]);
    f = std::move(nf);
    v_ar.push_back(a);
    v_sh.push_back(sh);
    v_meas.push_back(f._measure);
    v_nint.push_back(f._n_internal_faces);
    v_ext.push_back(f._external_weights);
    v_int.push_back(f._internal_weights);
    v_diam.push_back(f._sq_diam);
    v_edge.push_back(f._sq_min_edge);
    v_sum.push_back(f._sum_centers);
    std::vector<T> fac;
    for (size_t j = 0; j <= k; ++j) {
      const auto it = f._external_facets.find(seq[j]);
      fac.push_back(it == f._external_facets.end() ? -1 : it->second);
    }
    v_fac.push_back(fac);
  }
  Out o;
  o.text("st", "ok");
  o.vec("ar", v_ar);
  o.vec("sh", v_sh);
  o.vec("meas", v_meas);
  o.vec("nint", v_nint);
  o.vec("ext", v_ext);
  o.vec("int", v_int);
  o.vec("diam", v_diam);
  o.vec("edge", v_edge);
  o.vecs("sum", v_sum);
  o.vecs("fac", v_fac);
  o.done();
}

std::string record(const Cont_t &c, const Graph_t &g) {
  // Everything the container knows
  std::string s = "{\"n\":" + Out::str(c.get_nb_of_cc())
    + ",\"nagg\":" + Out::str(c.get_number_of_fc_agglomerated());
  std::vector<long> f2c, flag;
  for (I i = 0; i < g._number_of_cells; ++i) {
    f2c.push_back(
      c._fc_2_cc[i].has_value() ? static_cast<long>(*c._fc_2_cc[i]) : -1
    );
    flag.push_back(c._is_fc_agglomerated[i] ? 1 : 0);
  }
  s += ",\"f2c\":" + Out::list(f2c) + ",\"flag\":" + Out::list(flag)
    + ",\"ccs\":[";
  bool first = true;
  for (const auto &[id, cc] : c._ccs) {
    if (!first) s += ',';
    first = false;
    std::set<long> cells;
    for (const auto x : cc->_s_fc) cells.insert(static_cast<long>(x) + 1);
    s += "{\"id\":" + Out::str(id) + ",\"cells\":" + Out::list(cells)
      + ",\"card\":" + Out::str(cc->_cardinality)
      + ",\"cpt\":" + Out::str(cc->_compactness)
      + ",\"iso\":" + (cc->_is_isotropic ? "true" : "false") + "}";
  }
  return s + "]}";
}

// Container: history of creations
//  0 create isotropic, 1 create anisotropic, 2 create delayed, 3 flush,
//  4 correct
void container(In &in) {
  Mesh m(in);
  const T thr = in.get<T>();
  Cont_t c(m.g, thr);
  const long nops = in.get<long>();
  std::string recs = "[";
  std::vector<long> ids;
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const T arg = in.get<T>();
    const auto cells = in.vec<I>();
    const std::unordered_set<I> s(cells.begin(), cells.end());
    long id = -1;
    switch (op) {
      case 0: id = static_cast<long>(c.create_cc(s, arg)); break;
      case 1: id = static_cast<long>(c.create_cc(s, arg, true)); break;
      case 2: c.create_cc(s, arg, false, true); break;
      case 3: c.cc_create_all_delayed_cc(); break;
      case 4: c.correct(arg); break;
      default: std::exit(4);
    }
    ids.push_back(id);
    if (k) recs += ',';
    recs += record(c, *m.g);
  }
  Out o;
  o.text("st", "ok");
  o.vec("ids", ids);
  o.raw("recs", recs + "]");
  o.done();
}

// Growth of one coarse cell from a given seed, some cells being taken; then the
// order in which the pool gives the cells
void growth(In &in) {
  Mesh m(in);
  const int kind = in.get<int>();
  const T goal = in.get<T>(), mn = in.get<T>(), mx = in.get<T>();
  const int ar = in.get<int>(), nbh = in.get<int>();
  const T iter = in.get<T>();
  const auto taken = in.vecs<I>();
  const I seed = in.get<I>();
  auto cont = std::make_shared<Cont_t>(m.g, 1);
  auto p = make_pool(kind, false, m.bnd, m.prio);
  for (const auto &t : taken)
    cont->create_cc(std::unordered_set<I>(t.begin(), t.end()), 1);
  std::unique_ptr<Agglomerator_Isotropic<I, R, T>> agg;
  if (iter > 1)
    agg.reset(new Agglomerator_Iterative<I, R, T>(
      m.g, cont, p, m.dim, static_cast<CoMMAAspectRatioT>(ar),
      static_cast<CoMMANeighbourhoodT>(nbh), iter
    ));
  else
    agg.reset(new Agglomerator_Biconnected<I, R, T>(
      m.g, cont, p, m.dim, static_cast<CoMMAAspectRatioT>(ar),
      static_cast<CoMMANeighbourhoodT>(nbh), iter
    ));
  agg->set_agglomeration_parameter(goal, mn, mx);
  T cpt = -1;
  const auto cc =
    agg->choose_optimal_cc_and_update_seeds_pool(seed, m.prio, cpt);
  std::set<long> cells;
  for (const auto x : cc) cells.insert(static_cast<long>(x) + 1);
  Out o;
  o.text("st", "ok");
  o.vec("cc", cells);
  o.num("cpt", cpt);
  o.done();
}

// Anisotropic lines: fine lines, coarse cells and coarse lines
void lines(In &in) {
  Mesh m(in);
  const R thr = in.get<R>();
  const bool odd = in.get<bool>();
  const long maxc = in.get<long>();
  const int coup = in.get<int>();
  const bool force = in.get<bool>();
  const bool build = in.get<bool>();
  const auto lidx = in.vec<I>(), lns = in.vec<I>();
  auto cont = std::make_shared<Cont_t>(m.g, 1);
  auto p = make_pool(0, false, m.bnd, m.prio);
  std::optional<I> mc = std::nullopt;
  if (maxc > 0) mc = static_cast<I>(maxc);
  Agglomerator_Anisotropic<I, R, T> agg(
    m.g, cont, p, m.dim, thr, lidx, lns, m.prio, build, odd, mc,
    static_cast<CoMMACellCouplingT>(coup), force
  );
  std::vector<I> i0, l0, i1, l1;
  agg.export_anisotropic_lines(0, i0, l0);
  agg.agglomerate_one_level(2, 2, 2, m.prio, false);
  agg.export_anisotropic_lines(1, i1, l1);
  std::vector<long> f2c;
  for (I i = 0; i < m.g->_number_of_cells; ++i)
    f2c.push_back(
      cont->_fc_2_cc[i].has_value() ? static_cast<long>(*cont->_fc_2_cc[i]) : -1
    );
  Out o;
  o.text("st", "ok");
  o.vec("i0", i0);
  o.vec("l0", l0);
  o.vec("i1", i1);
  o.vec("l1", l1);
  o.vec("f2c", f2c);
  o.done();
}

// Queries to the graph: every cell, a set of cells, the cells around it through
// those not yet agglomerated, connectivity, anisotropic cells, and the graph
// inside the set
void graph(In &in) {
  Mesh m(in);
  const auto &g = *m.g;
  const auto set = in.vec<I>(), taken = in.vec<I>(), from = in.vec<I>();
  T depth = in.get<T>();
  const T card = in.get<T>();
  const R thr = in.get<R>();
  const auto coup = static_cast<CoMMACellCouplingT>(in.get<int>());
  const I n = g.get_nb_cells();
  std::vector<std::vector<I>> nbs, nbs2;
  std::vector<std::vector<R>> ws, ws2;
  std::vector<T> deg, bnd, tot, on;
  std::vector<R> ebw, etw;
  for (I c = 0; c < n; ++c) {
    nbs.push_back(g.get_neighbours(c));
    ws.push_back(g.get_weights(c));
    nbs2.emplace_back(g.neighbours_cbegin(c), g.neighbours_cend(c));
    ws2.emplace_back(g.weights_cbegin(c), g.weights_cend(c));
    deg.push_back(g.get_nb_of_neighbours(c));
    bnd.push_back(g.get_n_boundary_faces(c));
    tot.push_back(g.get_total_n_faces(c));
    on.push_back(g.is_on_boundary(c) ? 1 : 0);
    ebw.push_back(g.estimated_boundary_weight(c));
    etw.push_back(g.estimated_total_weight(c));
  }
  const std::unordered_set<I> s(set.begin(), set.end());
  std::vector<bool> agg(n, false);
  for (const auto c : taken) agg[c] = true;
  std::vector<long> cpt(n, -1), ord(n, -1);
  for (const auto &[c, k] : g.compute_fc_compactness_inside_a_cc(s)) cpt.at(c) = k;
  std::set<I> around;
  for (const auto c : g.get_neighbourhood_of_cc(s, agg)) around.insert(c);
  std::unordered_map<I, T> d;
  g.compute_neighbourhood_of_cc(
    std::unordered_set<I>(from.begin(), from.end()), depth, d, card, agg
  );
  for (const auto &[c, k] : d) ord.at(c) = k;
  std::vector<int> conn;
  for (int k = 0; k < 2; ++k) conn.push_back(m.g->check_connectivity() ? 1 : 0);
  std::vector<R> alt, mw(n, 0);
  std::vector<bool> is(n, false);
  std::deque<I> seeds;
  m.g->tag_anisotropic_cells(alt, mw, is, seeds, thr, m.prio, coup, 0);
  std::vector<int> flag(is.begin(), is.end());
  Out o;
  o.text("st", "ok");
  o.vecs("nbs", nbs);
  o.vecs("ws", ws);
  o.flag("same", nbs == nbs2 && ws == ws2);
  o.vec("deg", deg);
  o.vec("bnd", bnd);
  o.vec("tot", tot);
  o.vec("on", on);
  o.vec("ebw", ebw);
  o.vec("etw", etw);
  o.vec("cpt", cpt);
  o.num("mincpt", g.compute_min_fc_compactness_inside_a_cc(s));
  o.vec("around", around);
  o.vec("ord", ord);
  o.num("depth", depth);
  o.vec("conn", conn);
  o.vec("alt", alt);
  o.vec("mw", mw);
  o.vec("flag", flag);
  o.vec("seeds", seeds);
  if (!s.empty()) {
    Coarse_Cell_Subgraph<I, R, T> cc(
      m.g, 0, s, g.compute_min_fc_compactness_inside_a_cc(s)
    );
    cc.update_connectivity();
    auto &sub = *cc._cc_graph;
    std::vector<std::vector<I>> sn;
    std::vector<std::vector<R>> sw;
    for (I c = 0; c < sub._number_of_cells; ++c) {
      std::vector<I> x;
      for (const auto y : sub.get_neighbours(c))
        x.push_back(sub._mapping_l_to_g.at(y));
      sn.push_back(x);
      sw.push_back(sub.get_weights(c));
    }
    o.vec("smap", sub._mapping_l_to_g);
    o.vecs("snbs", sn);
    o.vecs("sws", sw);
    o.vec("svol", sub._volumes);
    o.num("scpt", sub._compactness);
    o.num("scard", sub._cardinality);
    o.num("sconn", cc._is_connected ? 1 : 0);
  }
  o.done();
}

int main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &op, In &in) {
    if (op == "POOL") return pool(in);
    if (op == "NBH") return neighbourhood(in);
    if (op == "FEAT") return features(in);
    if (op == "CONT") return container(in);
    if (op == "GROW") return growth(in);
    if (op == "LINES") return lines(in);
    if (op == "GRAPH") return graph(in);
    std::exit(4);
  });
}
