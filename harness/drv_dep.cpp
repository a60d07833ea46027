// Driver for the general containers that come with the library.
#include <cstddef>
#include <map>
#include <memory>
#include <set>

#include "CoMMA/deprecated/Bimap.h"
#include "CoMMA/deprecated/Priority_Pair.h"
#include "CoMMA/deprecated/Queue.h"
#include "CoMMA/deprecated/Tree.h"
#include "common.h"

using namespace drv;
using namespace comma;

using I = unsigned long;
using R = double;
using T = int;

std::string pairs(const std::vector<std::pair<long, long>> &v) {
  std::string s = "[";
  for (const auto &[a, b] : v)
    s += (s.size() > 1 ? ",[" : "[") + std::to_string(a) + ',' + std::to_string(b) + ']';
  return s + "]";
}

// Operations: 0 push, 1 pop
void queue(In &in) {
  Queue<long> q;
  std::string recs = "[";
  const long nops = in.get<long>();
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const auto arg = in.vec<long>();
    Out o;
    long got = 0;
    if (op == 0) q.push(arg.at(0));
    else got = q.pop();
    o.num("got", got);
    o.num("top", q.top());
    o.flag("empty", q.empty());
    recs += (k ? "," : "") + o.s + "}";
  }
  Out o;
  o.text("st", "ok");
  o.raw("recs", recs + "]");
  o.done();
}

// Gives access to the pairs as they are printed
struct Map : Bimap<long, long> {
  std::vector<std::pair<long, long>> both() {
    std::ostringstream s;
    auto *old = std::cout.rdbuf(s.rdbuf());
    print();
    std::cout.rdbuf(old);
    std::vector<std::pair<long, long>> v;
    std::string t = s.str();
    for (auto &c : t)
      if (c == '[' || c == ']' || c == '=' || c == ';') c = ' ';
    std::istringstream r(t);
    long a = 0, b = 0;
    while (r >> a >> b) v.emplace_back(a, b);
    return v;
  }
};

// Operations: 0 insertion, 1 new value on the left, 2 on the right, 3 removal;
// each one followed by the values to look for on both sides
void bimap(In &in) {
  Map b;
  std::string recs = "[";
  const long nops = in.get<long>();
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const auto arg = in.vec<long>(), left = in.vec<long>(), right = in.vec<long>();
    switch (op) {
      case 0: b.insert(arg.at(0), arg.at(1)); break;
      case 1: b.update_nodeB(arg.at(0), arg.at(1)); break;
      case 2: b.update_nodeA(arg.at(0), arg.at(1)); break;
      case 3: b.erase_B(arg.at(0)); break;
      default: std::exit(4);
    }
    Out o;
    o.num("n", b.lung());
    o.flag("empty", b.empty());
    o.raw("bypair", pairs(b.both()));
    std::vector<std::pair<long, long>> v;
    if (b.lung() == left.size())
      for (const auto x : left) v.emplace_back(x, b.get_B(x));
    o.raw("byleft", pairs(v));
    v.clear();
    if (b.lung() == right.size())
      for (const auto x : right) v.emplace_back(b.get_A(x), x);
    o.raw("byright", pairs(v));
    recs += (k ? "," : "") + o.s + "}";
  }
  Out o;
  o.text("st", "ok");
  o.raw("recs", recs + "]");
  o.done();
}

void priority(In &in) {
  const auto a = in.vec<long>(), b = in.vec<long>();
  using P = Priority_Pair<long, long>;
  std::set<P> s;
  std::vector<P> v;
  for (std::size_t k = 0; k < a.size(); ++k) {
    v.emplace_back(a[k], b[k]);
    s.emplace(a[k], b[k]);
  }
  std::vector<std::pair<long, long>> order;
  for (const auto &p : s) order.emplace_back(p.first(), p.second());
  std::vector<std::vector<int>> less, equal;
  for (const auto &x : v) {
    less.emplace_back();
    equal.emplace_back();
    for (const auto &y : v) {
      less.back().push_back(x < y);
      equal.back().push_back(x == y);
    }
  }
  Out o;
  o.text("st", "ok");
  o.raw("order", pairs(order));
  o.vecs("less", less);
  o.vecs("equal", equal);
  o.done();
}

using Node_t = Node<I, R, T>;

// The sons of a node; false if a link back is wrong
bool sons(const std::shared_ptr<Node_t> &f, std::vector<std::shared_ptr<Node_t>> &v) {
  bool ok = true;
  std::shared_ptr<Node_t> prev, x = f->_left_son_idx;
  while (x != nullptr) {
    ok = ok && x->_left_idx == prev && x->_father == f;
    v.push_back(x);
    if (v.size() > 1000) return false;
    prev = x;
    x = x->_right_idx;
  }
  return ok;
}

// Operations: 0 son of the root, 1 son of a son, 2 removal; each one followed
// by the values to look for
void tree(In &in) {
  auto root = std::make_shared<Node_t>(1000, 1.);
  Tree<I, R, T> t(root);
  std::string recs = "[";
  const long nops = in.get<long>();
  for (long k = 0; k < nops; ++k) {
    const int op = in.get<int>();
    const auto arg = in.vec<I>(), look = in.vec<I>();
    switch (op) {
      case 0: t.insertSon(1000, arg.at(0), static_cast<R>(arg.at(1)), 1); break;
      case 1: t.insertSon(arg.at(0), arg.at(1), static_cast<R>(arg.at(2)), 0); break;
      case 2: t.deleteNode(arg.at(0)); break;
      default: std::exit(4);
    }
    std::vector<std::shared_ptr<Node_t>> first;
    bool links = sons(t._root, first);
    std::string s = "[";
    for (const auto &x : first) {
      std::vector<std::shared_ptr<Node_t>> second;
      links = sons(x, second) && links;
      std::string u = "[";
      for (const auto &y : second) {
        Out e;
        e.num("i", y->_index);
        e.num("v", y->_volume);
        u += (u.size() > 1 ? "," : "") + e.s + "}";
      }
      Out e;
      e.num("i", x->_index);
      e.num("v", x->_volume);
      e.num("n", x->_sonc);
      e.raw("sons", u + "]");
      s += (s.size() > 1 ? "," : "") + e.s + "}";
    }
    const auto last = t.transverse(t._root->_left_son_idx);
    std::vector<I> found;
    if (!first.empty())
      for (const auto x : look) {
        const auto y = t.search(t._root->_left_son_idx, x);
        if (y != nullptr) found.push_back(y->_index == x ? x : 999);
      }
    Out o;
    o.flag("links", links);
    o.num("n", t._root->_sonc);
    o.raw("sons", s + "]");
    o.num("last", last == nullptr ? -1L : static_cast<long>(last->_index));
    o.vec("found", found);
    recs += (k ? "," : "") + o.s + "}";
  }
  Out o;
  o.text("st", "ok");
  o.raw("recs", recs + "]");
  o.done();
}

int main(int argc, char **argv) {
  return run(argc, argv, [](const std::string &op, In &in) {
    if (op == "QUE") return queue(in);
    if (op == "BIM") return bimap(in);
    if (op == "PRI") return priority(in);
    if (op == "TRE") return tree(in);
    std::exit(4);
  });
}
