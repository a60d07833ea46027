// Driver for the graph kept by a coarse cell: histories of insertions and
// removals of fine cells.
#include <memory>
#include <optional>
#include <unordered_set>

#include "CoMMA/Coarse_Cell.h"
#include "CoMMA/Dual_Graph.h"
#include "common.h"

using namespace drv;
using namespace comma;

using I = unsigned long;
using R = double;
using T = int;

using Graph_t = Dual_Graph<I, R, T>;
using Sub_t = Subgraph<I, R, T>;
using Cell_t = Coarse_Cell<I, R, T>;

// What the sub-graph says of itself, with the numbers of the mesh, and a coarse
// cell without graph which has received the same cells
std::string record(Sub_t &g, const Cell_t &b) {
  const auto n = static_cast<I>(g._number_of_cells);
  std::vector<I> cells, cnt, col;
  std::vector<R> vol, w;
  bool sizes = g._mapping_l_to_g.size() == n && g._volumes.size() == n
    && g._m_CRS_Row_Ptr.size() == n + 1 && g._m_CRS_Row_Ptr[0] == 0
    && g._m_CRS_Row_Ptr[n] == g._m_CRS_Col_Ind.size()
    && g._m_CRS_Values.size() == g._m_CRS_Col_Ind.size();
  for (I k = 0; sizes && k < n; ++k)
    sizes = g._m_CRS_Row_Ptr[k] <= g._m_CRS_Row_Ptr[k + 1];
  for (const auto x : g._m_CRS_Col_Ind) sizes = sizes && x < n;
  bool conn = false;
  if (sizes) {
    for (I k = 0; k < n; ++k) {
      cells.push_back(g._mapping_l_to_g[k]);
      vol.push_back(g._volumes[k]);
      const auto nb = g.get_neighbours(k);
      const auto ws = g.get_weights(k);
      cnt.push_back(static_cast<I>(g.get_nb_of_neighbours(k)));
      for (const auto y : nb) col.push_back(g._mapping_l_to_g[y]);
      w.insert(w.end(), ws.begin(), ws.end());
    }
    conn = g.check_connectivity();
  }
  Out o;
  o.flag("sizes", sizes);
  o.num("card", g._cardinality);
  o.num("cpt", g._compactness);
  o.flag("conn", conn);
  o.vec("cells", cells);
  o.vec("vol", vol);
  o.vec("cnt", cnt);
  o.vec("col", col);
  o.vec("w", w);
  o.num("bcard", b._cardinality);
  o.num("bcpt", b._compactness);
  o.vec("bcells", std::vector<I>(b._s_fc.begin(), b._s_fc.end()));
  return o.s + "}";
}

// Operations: 0 insert one, 1 insert some, 2 remove one
void history(In &in) {
  const auto rp = in.vec<I>(), col = in.vec<I>();
  const auto w = in.vec<R>(), vol = in.vec<R>();
  const auto cen = in.vecs<R>();
  in.vec<R>();
  const auto comp = in.vec<I>();
  const auto bnd = in.vec<T>();
  const T dim = in.get<T>();
  const auto g = std::make_shared<Graph_t>(
    static_cast<I>(rp.size() - 1), rp, col, w, vol, cen, bnd, dim, comp
  );
  const auto first = in.vec<I>();
  const T cpt = in.get<T>();
  const std::unordered_set<I> start(first.begin(), first.end());
  Coarse_Cell_Subgraph<I, R, T> c(g, 0, start, cpt);
  Cell_t b(g, 0, start, cpt);
  std::string recs = "[" + record(*c._cc_graph, b);
  const long nops = in.get<long>();
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const auto cells = in.vec<I>();
    switch (op) {
      case 0:
        c.insert_cell(cells.at(0), std::nullopt);
        b.insert_cell(cells.at(0), std::nullopt);
        break;
      case 1: {
        const std::unordered_set<I> some(cells.begin(), cells.end());
        c.insert_cells(some, std::nullopt);
        b.insert_cells(some, std::nullopt);
        break;
      }
      case 2: c._cc_graph->remove_node(cells.at(0)); break;
      default: std::exit(4);
    }
    recs += ',' + record(*c._cc_graph, b);
  }
  c.update_connectivity();
  Out o;
  o.text("st", "ok");
  o.flag("conn", c._is_connected);
  o.raw("recs", recs + "]");
  o.done();
}

int main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &op, In &in) {
    if (op == "SUB") return history(in);
    std::exit(4);
  });
}
