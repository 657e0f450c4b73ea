// C05: the voxel grid is a map from world cells to values, whatever its history
#include "voxel_common.h"

namespace
{
void checkAll(Grid& g, const Model& m, const char* where)
{
  PBT_REQUIRE("extents", static_cast<long>(g.left()) == m.left && static_cast<long>(g.right()) == m.right &&
                             static_cast<long>(g.up()) == m.up && static_cast<long>(g.down()) == m.down,
              where, ": left ", g.left(), " right ", g.right(), " up ", g.up(), " down ", g.down(), " want ",
              m.left, " ", m.right, " ", m.up, " ", m.down);
  PBT_REQUIRE("dims", g.width() == g.left() + g.right() + 1 && g.height() == g.up() + g.down() + 1, g.width());
  PBT_REQUIRE("valid-count", g.validCells() == m.cells.size(), where, ": ", g.validCells(), " want ", m.cells.size());
  size_t slots = 0, filled = 0;
  for (auto it = g.begin(); it != g.end(); ++it) {
    ++slots;
    if (*it)
      ++filled;
  }
  PBT_REQUIRE("slots", slots == g.width() * g.height() && filled == m.cells.size(), where, ": ", slots, " slots, ", filled, " filled");
  PBT_REQUIRE("cend", g.cend() - g.cbegin() == static_cast<long>(slots), slots);
  auto want = m.rowMajor(Ix(-m.left, -m.down), Ix(m.right, m.up));
  auto vals = g.getValidCells();
  auto ptrs = g.getValidCellsPtr();
  bool same = vals.size() == want.size() && ptrs.size() == want.size();
  for (size_t i = 0; same && i < want.size(); ++i)
    same = vals[i].v == want[i] && ptrs[i]->v == want[i];
  PBT_REQUIRE("valid-cells", same, where, ": the valid cells are not the stored ones");
  const Grid& cg = g;
  for (long y = -m.down - 1; y <= m.up + 1; ++y)
    for (long x = -m.left - 1; x <= m.right + 1; ++x) {
      Ix i(x, y);
      Pt p = centre(i, m.cs);
      bool in = m.inside(i);
      PBT_REQUIRE("isInside", cg.isInside(p) == in, where, ": cell ", x, ",", y);
      auto it = m.cells.find(i);
      PBT_REQUIRE("cellExists", cg.cellExists(p) == (it != m.cells.end()), where, ": cell ", x, ",", y);
      if (in) {
        Cell* cell = cg.getCellPtr(p);
        PBT_REQUIRE("getCellPtr", (cell != nullptr) == (it != m.cells.end()), where, ": cell ", x, ",", y);
        if (cell) {
          PBT_REQUIRE("content", cell->v == it->second, where, ": cell ", x, ",", y, " holds ", cell->v, " want ", it->second);
          PBT_REQUIRE("index-operator", &g[p] == cell, where, ": cell ", x, ",", y);
        }
      }
    }
}
}

PBT_TEST(grid_history, 40000, 1200000)
{
  Grid g;
  Model m;
  float cs = kSizes[c.draw(7)];
  g.setCellSize(cs);
  m.cs = cs;
  PBT_REQUIRE("cell-size", g.getCellSize() == cs, g.getCellSize());
  c.note("cell size ", cs);
  long r = 6, big = 14;
  long tick = 1;
  size_t steps = static_cast<size_t>(c.range(1, c.thorough ? 40 : 20));
  bool enlarged = false, shifted = false, copied = false;
  for (size_t s = 0; s < steps; ++s) {
    size_t op = c.weighted({8, 2, 2, 2, 2, 1, 1, 1, 1});
    switch (op) {
      case 0: {
        Ix i = genIx(c, r);
        Pt p = pointIn(c, i, m.cs);
        bool merge = c.coin(60);
        long v = tick++;
        c.note("addCell ", p.transpose(), " value ", v, merge ? " merging" : " overwriting");
        if (!m.inside(i))
          enlarged = true;
        m.fit(i);
        if (c.coin()) {
          Cell x(v);
          if (merge && c.coin())
            g.addCell(p, x);  // merging is the default
          else
            g.addCell(p, x, merge);
        } else
          g.addCell(p, Cell(v), merge);
        auto it = m.cells.find(i);
        if (it == m.cells.end())
          m.cells[i] = v;
        else
          it->second = merge ? it->second + v : v;
        break;
      }
      case 1: {
        Ix i = genIx(c, r);
        Pt p = pointIn(c, i, m.cs);
        c.note("removeCell ", p.transpose());
        bool in = m.inside(i);
        bool had = m.cells.count(i) == 1;
        bool res = g.removeCell(p);
        PBT_REQUIRE("removeCell", in || !res, "removed a cell outside the grid");
        PBT_REQUIRE("removeCell-result", !had || res, "removing an occupied cell reports failure");
        m.cells.erase(i);
        break;
      }
      case 2: {  // move the content
        Eigen::Vector2i d(static_cast<int>(c.around(-5, 5)), static_cast<int>(c.around(-5, 5)));
        bool discard = c.coin();
        if (c.coin(10)) {
          d *= 4;  // further than the grid is wide
          discard = true;
        }
        if (!discard) {
          // keep the grid small
          if (m.left + m.right > 4 * big || m.up + m.down > 4 * big)
            discard = true;
        }
        c.note("translate ", d.transpose(), discard ? " discarding" : " growing");
        c.label(discard ? "discarding shift" : "growing shift");
        g.translate(d, discard);
        if (!discard) {
          (d(0) < 0 ? m.left : m.right) += std::abs(d(0));
          (d(1) < 0 ? m.down : m.up) += std::abs(d(1));
        }
        std::map<Ix, long> moved;
        for (auto& x : m.cells) {
          Ix t(x.first.first + d(0), x.first.second + d(1));
          if (m.inside(t))
            moved[t] = x.second;
        }
        m.cells = moved;
        if (d(0) || d(1))
          shifted = true;
        break;
      }
      case 3: {
        Ix a = genIx(c, r + 2), b = genIx(c, r + 2);
        float lx = static_cast<float>(static_cast<double>(std::min(a.first, b.first)) * m.cs);
        float hx = static_cast<float>(static_cast<double>(std::max(a.first, b.first)) * m.cs);
        float ly = static_cast<float>(static_cast<double>(std::min(a.second, b.second)) * m.cs);
        float hy = static_cast<float>(static_cast<double>(std::max(a.second, b.second)) * m.cs);
        c.note("enlarge ", lx, " ", ly, " ", hx, " ", hy);
        g.enlarge(lx, ly, hx, hy);
        Ix lo(std::min(a.first, b.first), std::min(a.second, b.second));
        Ix hi(std::max(a.first, b.first), std::max(a.second, b.second));
        if (!m.inside(lo) || !m.inside(hi))
          enlarged = true;
        // a direction only ever grows
        m.left = std::max(m.left, -lo.first);
        m.right = std::max(m.right, hi.first);
        m.down = std::max(m.down, -lo.second);
        m.up = std::max(m.up, hi.second);
        break;
      }
      case 4: {  // copies are equal and independent
        c.note("copy");
        copied = true;
        Grid h(g);
        checkAll(h, m, "copy constructed");
        Grid k;
        k.setCellSize(7.0f);
        k.addCell(Pt(70, 7), Cell(5));
        k = g;
        checkAll(k, m, "copy assigned");
        PBT_REQUIRE("copy-cell-size", h.getCellSize() == cs && k.getCellSize() == cs, h.getCellSize());
        // writing to a copy leaves the source alone
        h.addCell(Pt(0, 0), Cell(1000), false);
        if (c.coin())
          h.clear();
        k.translate(Eigen::Vector2i(1, 1), true);
        checkAll(g, m, "source of a copy");
        if (c.coin()) {
          Grid t(g);
          g = std::move(t);
        } else
          g = Grid(g);
        break;
      }
      case 5: {
        c.note("clone");
        Grid e = g.clone();
        PBT_REQUIRE("clone", e.getCellSize() == cs, "cell size ", e.getCellSize());
        break;
      }
      case 6:
        c.note("clear");
        g.clear();
        m.cells.clear();
        break;
      case 7: {
        c.note("self assignment");
        Grid& alias = g;
        g = alias;
        break;
      }
      default: {
        Ix i = genIx(c, r);
        if (!m.cells.count(i))
          break;
        c.note("write through []");
        g[pointIn(c, i, m.cs)] = Cell(tick);
        m.cells[i] = tick++;
      }
    }
    if (c.coin(25))
      checkAll(g, m, "mid history");
  }
  checkAll(g, m, "end");
  if (enlarged)
    c.label("grid grew");
  if (shifted)
    c.label("content shifted");
  if (copied)
    c.label("copied");
  c.nontrivial((enlarged && shifted) || (enlarged && copied) || (enlarged && steps > 4));
}

PBT_TEST(points_on_cell_borders, 60000, 2000000)
{
  // any finite position: no cell outside the storage is touched, and what was
  // stored at a position is found at that position
  Grid g;
  float cs = c.coin(50) ? kSizes[c.draw(7)] : static_cast<float>(c.real(0.05, 3));
  if (cs <= 0.05f)
    cs = 0.05f;
  g.setCellSize(cs);
  double half = static_cast<double>(cs) / 2;
  c.note("cell size ", cs);
  size_t n = static_cast<size_t>(c.range(1, 8));
  std::vector<Pt> pts;
  bool border = false;
  auto coord = [&]() {
    double v = static_cast<double>(c.around(-12, 12)) * cs;
    switch (c.draw(4)) {
      case 0: break;
      case 1: v += half; border = true; break;
      case 2: {
        v += half;
        int k = static_cast<int>(c.around(-3, 3));
        for (int i = 0; i < std::abs(k); ++i)
          v = std::nextafter(v, k < 0 ? -1e9 : 1e9);
        border = true;
        break;
      }
      default: {
        v += half;
        v = static_cast<double>(static_cast<float>(v)) * (1 + 1e-8 * static_cast<double>(c.around(-8, 8)));
        border = true;
      }
    }
    return v;
  };
  for (size_t i = 0; i < n; ++i) {
    double x = coord(), y = coord();
    Pt p(x, y);
    c.note("add at ", p.transpose());
    size_t w = g.width(), h = g.height();
    bool in = g.isInside(p);
    size_t valid = g.validCells();
    bool existed = g.cellExists(p);
    PBT_REQUIRE("exists-inside", !existed || in, "a cell exists outside the grid");
    Pt q = p;
    g.addCell(p, Cell(static_cast<long>(i) + 1), false);
    PBT_REQUIRE("no-growth-inside", !in || (g.width() == w && g.height() == h), "the grid grew although the point was inside");
    PBT_REQUIRE("inside-after", g.isInside(q), "the point is not inside after it was added");
    PBT_REQUIRE("exists-after", g.cellExists(q), "no cell at the point after it was added");
    PBT_REQUIRE("value", g.getCellPtr(q)->v == static_cast<long>(i) + 1, "another cell is read back");
    PBT_REQUIRE("count", g.validCells() == valid + (existed ? 0 : 1), g.validCells());
    // the cell is one whose area touches the point
    bool touches = false;
    double tol = cs * 1e-4;
    for (long dx = -1; dx <= 1; ++dx)
      for (long dy = -1; dy <= 1; ++dy) {
        Ix ix(std::lround(x / cs) + dx, std::lround(y / cs) + dy);
        Pt ce = centre(ix, cs);
        if (std::fabs(ce(0) - x) <= half + tol && std::fabs(ce(1) - y) <= half + tol && g.cellExists(ce) &&
            g.getCellPtr(ce) == g.getCellPtr(q))
          touches = true;
      }
    PBT_REQUIRE("touches", touches, "the value went to a cell that does not touch the point");
    auto near = g.getNeighbors(q, 1);
    PBT_REQUIRE("neighbour", std::find(near.begin(), near.end(), g.getCellPtr(q)) != near.end(), "not its own neighbour");
    g.getNeighbors(q, 3);
    pts.push_back(p);
    // growth around an existing cell needs one more ring at most
    PBT_REQUIRE("tight", g.left() <= 14 && g.right() <= 14 && g.up() <= 14 && g.down() <= 14, g.left(), " ", g.right(), " ", g.up(), " ", g.down());
  }
  size_t before = g.validCells();
  size_t k = c.draw(pts.size());
  g.removeCell(pts[k]);
  PBT_REQUIRE("removed", !g.cellExists(pts[k]) && g.validCells() == before - 1, "the cell is still there");
  c.nontrivial(border);
}
PBT_MAIN()
