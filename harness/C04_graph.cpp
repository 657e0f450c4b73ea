// C04: pose graph histories against a reference model
#include "pbt.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef slamuk::Graph<Slam2d_Policy, std::string> G;
typedef G::E E;
typedef G::N N;

namespace
{
struct MEdge {
  size_t from, to;
  V3 z;
  Eigen::Matrix3d inf;
  int state, type;
  bool used;
  const E* addr;
};
struct MNode {
  V3 pose;
  std::string obj;
  bool visited;
  const N* addr;
};

template <typename It>
void advance(Case& c, It& it)
{
  if (c.coin(30))
    it++;
  else
    ++it;
}

struct Model {
  std::map<size_t, MEdge> edges;
  std::vector<MNode> nodes;
  bool removed_then_added = false, removed_any = false;
};

void checkEdge(const E& e, size_t id, const MEdge& m)
{
  PBT_REQUIRE("edge-id", e.getId() == id, e.getId(), " want ", id);
  PBT_REQUIRE("edge-ends", e.getFrom()->getId() == m.from && e.getTo()->getId() == m.to,
              e.getFrom()->getId(), "->", e.getTo()->getId(), " want ", m.from, "->", m.to);
  PBT_REQUIRE("edge-data", e.getTransform() == m.z && e.getInformationMatrix() == m.inf,
              e.getTransform().transpose());
  PBT_REQUIRE("edge-flags", static_cast<int>(e.getState()) == m.state &&
                                static_cast<int>(e.getType()) == m.type && e.isUsed() == m.used,
              "state ", static_cast<int>(e.getState()), " type ", static_cast<int>(e.getType()));
  PBT_REQUIRE("edge-stable", &e == m.addr, "edge ", id, " moved in memory");
}

template <typename F>
bool throwsOutOfRange(F f)
{
  try {
    f();
  } catch (const std::out_of_range&) {
    return true;
  }
  return false;
}

void checkAll(Case& c, G& g, Model& m)
{
  const G& cg = g;
  PBT_REQUIRE("edge-count", g.edgeCount() == m.edges.size(), g.edgeCount(), " want ", m.edges.size());
  PBT_REQUIRE("node-count", g.nodeCount() == m.nodes.size(), g.nodeCount(), " want ", m.nodes.size());
  // iteration visits exactly the live elements, each once
  size_t bound = m.edges.size() + 4;
  {
    std::set<size_t> seen;
    size_t k = 0;
    for (auto it = g.beginEdge(); it != g.endEdge(); advance(c, it)) {
      PBT_REQUIRE("edge-iteration", ++k <= bound, "does not end");
      PBT_REQUIRE("edge-iteration-null", it.operator->() != nullptr, "iterator stands on a removed edge");
      size_t id = (*it).getId();
      PBT_REQUIRE("edge-iteration-live", m.edges.count(id) == 1, "visits edge ", id, " which is not live");
      PBT_REQUIRE("edge-iteration-once", seen.insert(id).second, "visits edge ", id, " twice");
      checkEdge(*it, id, m.edges[id]);
      PBT_REQUIRE("iterator-arrow", it->getId() == id, "-> and * disagree");
    }
    PBT_REQUIRE("edge-iteration-complete", seen.size() == m.edges.size(), seen.size(), " of ", m.edges.size(), " edges visited");
  }
  {
    std::set<size_t> seen;
    size_t k = 0;
    for (auto it = cg.cbeginEdge(); it != cg.cendEdge(); advance(c, it)) {
      PBT_REQUIRE("const-edge-iteration", ++k <= bound, "does not end");
      PBT_REQUIRE("const-edge-iteration-null", it.operator->() != nullptr, "iterator stands on a removed edge");
      size_t id = it->getId();
      PBT_REQUIRE("const-edge-iteration-live", m.edges.count(id) == 1, "visits edge ", id);
      PBT_REQUIRE("const-edge-iteration-once", seen.insert(id).second, "visits edge ", id, " twice");
    }
    PBT_REQUIRE("const-edge-iteration-complete", seen.size() == m.edges.size(), seen.size(), " of ", m.edges.size(), " edges visited");
  }
  {
    std::set<size_t> seen;
    for (auto it = g.beginNode(); it != g.endNode(); advance(c, it))
      PBT_REQUIRE("node-iteration", it->getId() < m.nodes.size() && seen.insert(it->getId()).second, it->getId());
    PBT_REQUIRE("node-iteration-complete", seen.size() == m.nodes.size(), seen.size());
    seen.clear();
    for (auto it = cg.cbeginNode(); it != cg.cendNode(); advance(c, it))
      PBT_REQUIRE("const-node-iteration", (*it).getId() < m.nodes.size() && seen.insert(it->getId()).second, it->getId());
    PBT_REQUIRE("const-node-iteration-complete", seen.size() == m.nodes.size(), seen.size());
  }
  for (auto& e : m.edges) {
    checkEdge(g.getEdge(e.first), e.first, e.second);
    checkEdge(cg.getEdge(e.first), e.first, e.second);
  }
  for (size_t i = 0; i < m.nodes.size(); ++i) {
    N& n = g.getNode(i);
    PBT_REQUIRE("node-id", n.getId() == i && cg.getNode(i).getId() == i, n.getId());
    PBT_REQUIRE("node-data", n.getPose() == m.nodes[i].pose && n.getDataObj() == m.nodes[i].obj &&
                                 n.isVisited() == m.nodes[i].visited,
                n.getPose().transpose(), " ", n.getDataObj());
    PBT_REQUIRE("node-stable", &n == m.nodes[i].addr, "node ", i, " moved in memory");
    // the node's edge lists are exactly its live incident edges
    std::multiset<size_t> in, out, win, wout;
    for (auto& e : m.edges) {
      if (e.second.from == i)
        wout.insert(e.first);
      if (e.second.to == i)
        win.insert(e.first);
    }
    PBT_REQUIRE("out-list-size", n.getEdgesOut().size() == wout.size(), "node ", i, " lists ",
                n.getEdgesOut().size(), " outgoing edges, has ", wout.size());
    PBT_REQUIRE("in-list-size", n.getEdgesIn().size() == win.size(), "node ", i, " lists ",
                n.getEdgesIn().size(), " incoming edges, has ", win.size());
    for (auto p : n.getEdgesOut())
      out.insert(p->getId());
    for (auto p : n.getEdgesIn())
      in.insert(p->getId());
    PBT_REQUIRE("adjacency", in == win && out == wout, "node ", i, " lists the wrong edges");
  }
}

V3 pose(Case& c)
{
  return V3(c.real(-50, 50), c.real(-50, 50), c.angle());
}
}

PBT_TEST(graph_history, 60000, 1500000)
{
  G g;
  const G& cg = g;
  Model m;
  size_t n0 = static_cast<size_t>(c.range(1, 4));
  auto addNode = [&]() {
    MNode mn;
    mn.pose = pose(c);
    mn.obj = "node" + std::to_string(m.nodes.size());
    mn.visited = false;
    size_t id = g.addNode(N(mn.pose, mn.obj));
    PBT_REQUIRE("new-node-id", id == m.nodes.size(), id, " want ", m.nodes.size());
    mn.addr = &g.getNode(id);
    m.nodes.push_back(mn);
    c.note("addNode -> ", id);
  };
  for (size_t i = 0; i < n0; ++i)
    addNode();
  size_t steps = static_cast<size_t>(c.range(0, c.thorough ? 60 : 30));
  size_t bound_id = 0;
  for (size_t s = 0; s < steps; ++s) {
    switch (c.weighted({6, 5, 2, 2, 2, 2, 1})) {
      case 0: {  // add an edge (self loops and parallel edges included)
        MEdge e;
        e.from = c.draw(m.nodes.size());
        e.to = c.draw(m.nodes.size());
        e.z = pose(c);
        e.inf = Eigen::Matrix3d::Identity() * c.real(0.1, 5);
        E edge(&g.getNode(e.from), &g.getNode(e.to), e.z, e.inf);
        e.state = static_cast<int>(edge.getState());
        e.type = static_cast<int>(edge.getType());
        e.used = edge.isUsed();
        PBT_REQUIRE("new-edge-state", e.state == static_cast<int>(E::State::CONSTRUCTED) &&
                                          e.type == static_cast<int>(E::Type::ODOM) && !e.used,
                    "fresh edge has state ", e.state, " type ", e.type);
        size_t id = g.addEdge(std::move(edge));
        c.note("addEdge ", e.from, "->", e.to, " -> ", id);
        PBT_REQUIRE("edge-id-unique", m.edges.count(id) == 0, "id ", id, " is already in use");
        bound_id = std::max(bound_id, id + 1);
        e.addr = &g.getEdge(id);
        m.edges[id] = e;
        if (m.removed_any)
          m.removed_then_added = true;
        break;
      }
      case 1: {  // remove: live, already removed or never existing
        size_t id = c.draw(bound_id + 3);
        if (!m.edges.empty() && c.coin(60)) {
          auto it = m.edges.begin();
          std::advance(it, static_cast<long>(c.draw(m.edges.size())));
          id = it->first;
        }
        bool live = m.edges.count(id) == 1;
        c.note("removeEdge ", id, live ? "" : " (not live)");
        c.label(live ? "removes a live edge" : "removes a dead id");
        bool r = g.removeEdge(id);
        PBT_REQUIRE("remove-result", r == live, "removeEdge(", id, ") = ", r);
        if (live) {
          m.edges.erase(id);
          m.removed_any = true;
        }
        break;
      }
      case 2:
        addNode();
        break;
      case 3: {  // look up anything
        size_t id = c.draw(bound_id + 3);
        bool live = m.edges.count(id) == 1;
        c.note("getEdge ", id);
        PBT_REQUIRE("getEdge", throwsOutOfRange([&] { g.getEdge(id); }) == !live, "getEdge(", id, ")");
        PBT_REQUIRE("getEdge-const", throwsOutOfRange([&] { cg.getEdge(id); }) == !live, "getEdge(", id, ")");
        size_t nid = c.draw(m.nodes.size() + 3);
        bool nlive = nid < m.nodes.size();
        PBT_REQUIRE("getNode", throwsOutOfRange([&] { g.getNode(nid); }) == !nlive, "getNode(", nid, ")");
        PBT_REQUIRE("getNode-const", throwsOutOfRange([&] { cg.getNode(nid); }) == !nlive, "getNode(", nid, ")");
        break;
      }
      case 4: {  // change an edge
        if (m.edges.empty())
          break;
        auto it = m.edges.begin();
        std::advance(it, static_cast<long>(c.draw(m.edges.size())));
        static const E::State st[] = {E::State::REMOVED, E::State::TEMP, E::State::ACTIVE, E::State::CONSTRUCTED};
        E::State ns = st[c.draw(4)];
        E::Type nt = c.coin() ? E::Type::LOOP : E::Type::ODOM;
        bool u = c.coin();
        c.note("edge ", it->first, " state ", static_cast<int>(ns));
        g.getEdge(it->first).setState(ns);
        g.getEdge(it->first).setType(nt);
        g.getEdge(it->first).setUsed(u);
        it->second.state = static_cast<int>(ns);
        it->second.type = static_cast<int>(nt);
        it->second.used = u;
        break;
      }
      case 5: {  // change a node
        size_t i = c.draw(m.nodes.size());
        m.nodes[i].pose = pose(c);
        m.nodes[i].visited = c.coin();
        m.nodes[i].obj += "x";
        c.note("change node ", i);
        g.getNode(i).setPose(m.nodes[i].pose);
        g.getNode(i).setVisited(m.nodes[i].visited);
        g.getNode(i).getDataObj() = m.nodes[i].obj;
        break;
      }
      default: {  // follow the graph through its node lists
        size_t i = c.draw(m.nodes.size());
        for (auto e : g.getNode(i).getEdgesOut()) {
          PBT_REQUIRE("follow-out", e->getFrom() == &g.getNode(i), "outgoing edge starts elsewhere");
          e->setUsed(true);
          m.edges[e->getId()].used = true;
        }
        for (auto e : g.getNode(i).getEdgesIn())
          PBT_REQUIRE("follow-in", e->getTo() == &g.getNode(i), "incoming edge ends elsewhere");
        break;
      }
    }
    if (c.coin(35))
      checkAll(c, g, m);
  }
  checkAll(c, g, m);
  c.nontrivial(m.removed_then_added);
  if (m.removed_any)
    c.label("history with a removal");
  if (m.removed_then_added)
    c.label("addition after a removal");
}

PBT_TEST(standard_algorithms_over_iterators, 20000, 300000)
{
  // the iterators advertise the forward category, so ranges of them can be
  // copied, walked twice and post-incremented
  G g;
  size_t n = static_cast<size_t>(c.range(1, 3));
  for (size_t i = 0; i < n; ++i)
    g.addNode(N(pose(c), "n"));
  std::vector<size_t> live;
  size_t k = static_cast<size_t>(c.range(0, 8));
  for (size_t i = 0; i < k; ++i)
    live.push_back(g.addEdge(E(&g.getNode(c.draw(n)), &g.getNode(c.draw(n)), pose(c), Eigen::Matrix3d::Identity())));
  size_t rem = live.empty() ? 0 : c.draw(live.size() + 1);
  for (size_t i = 0; i < rem; ++i) {
    size_t j = c.draw(live.size());
    g.removeEdge(live[j]);
    live.erase(live.begin() + static_cast<long>(j));
  }
  c.note("edges ", k, " removed ", rem);
  c.nontrivial(rem > 0 && !live.empty());
  std::multiset<size_t> want(live.begin(), live.end()), got;
  auto it = g.beginEdge();
  auto end = g.endEdge();
  size_t steps = 0;
  while (!(it == end)) {
    PBT_REQUIRE("terminates", ++steps <= k + 2, "iteration does not end");
    auto copy = it;
    auto old = it++;  // names the element before the step
    PBT_REQUIRE("post-increment", old == copy, "it++ returned the advanced position");
    got.insert(old->getId());
    ++copy;
    PBT_REQUIRE("multi-pass", copy == it, "a copied iterator walks differently");
  }
  PBT_REQUIRE("range", got == want, "visited ", got.size(), " of ", want.size());
}
// a node's lists of edges behave as sets kept in order of arrival, and say
// whether a change took place
PBT_TEST(node_lists, 20000, 400000)
{
  size_t n = static_cast<size_t>(c.range(1, 3));
  std::vector<std::unique_ptr<N>> nodes;
  std::vector<V3> poses;
  std::vector<std::vector<E*>> in(n), out(n);
  for (size_t i = 0; i < n; ++i) {
    poses.push_back(pose(c));
    nodes.emplace_back(new N(poses[i], "n"));
    PBT_REQUIRE("fresh-node", nodes[i]->getEdgesIn().empty() && nodes[i]->getEdgesOut().empty() && !nodes[i]->isVisited(), "");
  }
  std::vector<std::unique_ptr<E>> edges;
  for (size_t i = 0; i < 4; ++i)
    edges.emplace_back(new E(nodes[0].get(), nodes[c.draw(n)].get(), pose(c), Eigen::Matrix3d::Identity()));
  size_t k = static_cast<size_t>(c.range(1, 16)), refused = 0;
  for (size_t s = 0; s < k; ++s) {
    size_t i = c.draw(n);
    E* e = edges[c.draw(edges.size())].get();
    bool incoming = c.coin(50), add = c.coin(60);
    auto& l = incoming ? in[i] : out[i];
    auto it = std::find(l.begin(), l.end(), e);
    bool want = add == (it == l.end());
    bool got = add ? (incoming ? nodes[i]->addEdgeIn(e) : nodes[i]->addEdgeOut(e))
                   : (incoming ? nodes[i]->removeEdgeIn(e) : nodes[i]->removeEdgeOut(e));
    c.note(add ? "add " : "remove ", incoming ? "incoming " : "outgoing ", "edge at node ", i, want ? "" : " (no change)");
    refused += !want;
    if (want && add)
      l.push_back(e);
    if (want && !add)
      l.erase(it);
    PBT_REQUIRE("says-if-changed", got == want, got);
    for (size_t j = 0; j < n; ++j)
      PBT_REQUIRE("lists", nodes[j]->getEdgesIn() == in[j] && nodes[j]->getEdgesOut() == out[j], "node ", j);
  }
  c.nontrivial(refused > 0 && refused < k);
}

// the printed list names every node with its pose, in order
PBT_TEST(printed_nodes, 5000, 60000)
{
  G g;
  size_t n = static_cast<size_t>(c.range(0, 6));
  std::vector<V3> poses;
  for (size_t i = 0; i < n; ++i) {
    poses.push_back(pose(c));
    g.addNode(N(poses[i], "n"));
  }
  std::ostringstream os;
  g.printNodes(os);
  std::istringstream is(os.str());
  std::string line;
  c.note(os.str());
  c.nontrivial(n > 1);
  for (size_t i = 0; i < n; ++i) {
    PBT_REQUIRE("line-per-node", static_cast<bool>(std::getline(is, line)), "node ", i);
    std::vector<double> num;
    for (size_t k = 0; k < line.size();) {
      char* end = nullptr;
      if (std::isdigit(static_cast<unsigned char>(line[k])) || line[k] == '-') {
        double v = std::strtod(line.c_str() + k, &end);
        if (end != line.c_str() + k) {
          num.push_back(v);
          k = static_cast<size_t>(end - line.c_str());
          continue;
        }
      }
      ++k;
    }
    bool ok = num.size() == 4 && num[0] == static_cast<double>(i);
    for (int j = 0; ok && j < 3; ++j)
      ok = std::fabs(num[static_cast<size_t>(j) + 1] - poses[i](j)) <= 1e-4 * (1 + std::fabs(poses[i](j)));
    PBT_REQUIRE("names-node", ok, line, " want node ", i, " at ", poses[i].transpose());
  }
  PBT_REQUIRE("nothing-else", !std::getline(is, line) || line.empty(), line);
}
PBT_MAIN()
