// C06: neighbourhood windows and ray traversal of the voxel grid
#include "voxel_common.h"

namespace
{
struct Scene {
  Grid g;
  Model m;
};
void build(Case& c, Scene& s)
{
  float cs = kSizes[c.draw(7)];
  s.g.setCellSize(cs);
  s.m.cs = cs;
  size_t n = static_cast<size_t>(c.range(0, 20));
  for (size_t i = 0; i < n; ++i) {
    Ix ix = genIx(c, 7);
    s.m.fit(ix);
    s.m.cells[ix] = static_cast<long>(i) + 1;
    s.g.addCell(pointIn(c, ix, cs), Cell(static_cast<long>(i) + 1), false);
  }
  if (c.coin(30)) {
    long e = static_cast<long>(c.range(1, 9));
    float f = static_cast<float>(static_cast<double>(e) * cs);
    s.g.enlarge(-f, -f, f, f);
    s.m.fit(Ix(e, e));
    s.m.fit(Ix(-e, -e));
  }
  c.note("cell size ", cs, " cells ", s.m.cells.size(), " extents ", s.m.left, " ", s.m.right, " ", s.m.up, " ", s.m.down);
}
}

PBT_TEST(neighbour_window, 60000, 1500000)
{
  Scene s;
  build(c, s);
  size_t q = static_cast<size_t>(c.range(1, 4));
  for (size_t k = 0; k < q; ++k) {
    Ix i = genIx(c, 9);
    Pt p = pointIn(c, i, s.m.cs);
    size_t rad = c.draw(6);
    if (c.coin(10))
      rad = 40;
    c.note("neighbours of ", p.transpose(), " radius ", rad);
    auto got = s.g.getNeighbors(p, rad);
    std::vector<long> want;
    long R = static_cast<long>(rad);
    if (s.m.inside(i))
      want = s.m.rowMajor(Ix(i.first - R, i.second - R), Ix(i.first + R, i.second + R));
    bool same = got.size() == want.size();
    for (size_t j = 0; same && j < want.size(); ++j)
      same = got[j] && got[j]->v == want[j];
    std::string w;
    for (auto x : want)
      w += " " + std::to_string(x);
    std::string gs;
    for (auto x : got)
      gs += " " + std::to_string(x->v);
    PBT_REQUIRE("window", same, "got", gs, " want", w);
    if (want.size() > 1)
      c.label("several neighbours");
    if (s.m.inside(i) && (i.first - R < -s.m.left || i.first + R > s.m.right || i.second - R < -s.m.down || i.second + R > s.m.up))
      c.label("window clipped by the border");
    c.nontrivial(want.size() > 1);
  }
}

PBT_TEST(ray_traversal, 60000, 2000000)
{
  Scene s;
  build(c, s);
  double cs = s.m.cs;
  Ix si = genIx(c, 8);
  Pt start = c.coin(20) ? Pt(0, 0) : pointIn(c, si, cs);
  if (start == Pt(0, 0))
    si = Ix(0, 0);
  Pt end;
  switch (c.draw(4)) {
    case 0: end = pointIn(c, genIx(c, 9), cs); break;
    case 1: {  // axis-parallel
      end = start;
      end(static_cast<long>(c.draw(2))) += static_cast<double>(c.around(-9, 9)) * cs;
      break;
    }
    case 2:  // close to the start
      end = start + Pt(c.real(-1.5, 1.5) * cs, c.real(-1.5, 1.5) * cs);
      break;
    default: end = pointIn(c, genIx(c, 60), cs); break;
  }
  bool inside = s.m.inside(si);
  c.note("ray ", start.transpose(), " -> ", end.transpose());
  std::map<Ix, long> before = s.m.cells;
  auto ray = (start == Pt(0, 0) && c.coin()) ? s.g.rayTrace(end) : s.g.rayTrace(start, end);
  if (!inside) {
    PBT_REQUIRE("outside-start", ray.empty(), "a ray from outside the grid returned ", ray.size(), " cells");
    c.label("start outside");
    return;
  }
  PBT_REQUIRE("not-empty", !ray.empty(), "no start cell");
  // which world cell is each returned pointer
  std::map<Cell*, Ix> where;
  size_t filled = 0;
  for (long y = -s.m.down; y <= s.m.up; ++y)
    for (long x = -s.m.left; x <= s.m.right; ++x) {
      Cell* p = s.g.getCellPtr(centre(Ix(x, y), cs));
      if (p) {
        ++filled;
        where[p] = Ix(x, y);
        auto it = before.find(Ix(x, y));
        PBT_REQUIRE("content-kept", it == before.end() ? p->v == 0 : p->v == it->second, "tracing changed cell ", x, ",", y);
      } else
        PBT_REQUIRE("cell-kept", before.count(Ix(x, y)) == 0, "tracing removed cell ", x, ",", y);
    }
  PBT_REQUIRE("valid-count", s.g.validCells() == filled && s.g.getValidCells().size() == filled, s.g.validCells(), " counted, ", filled, " filled");
  double half = cs / 2, tol = cs * 1e-3;
  Ix prev;
  std::set<Ix> visited;
  double lastEntry = -1;
  for (size_t k = 0; k < ray.size(); ++k) {
    PBT_REQUIRE("real-cell", where.count(ray[k]) == 1, "entry ", k, " is not a cell of the grid");
    Ix i = where[ray[k]];
    if (k == 0)
      PBT_REQUIRE("first", i == si, "starts in cell ", i.first, ",", i.second);
    else {
      PBT_REQUIRE("connected", i != prev && std::labs(i.first - prev.first) <= 1 && std::labs(i.second - prev.second) <= 1,
                  "jumps from ", prev.first, ",", prev.second, " to ", i.first, ",", i.second);
    }
    PBT_REQUIRE("once", visited.insert(i).second, "cell ", i.first, ",", i.second, " twice");
    // the segment passes through (or touches) the cell: clip it
    Pt ce = centre(i, cs);
    double t0 = 0, t1 = 1;
    bool hit = true;
    for (int d = 0; d < 2; ++d) {
      double lo = ce(d) - half - tol, hi = ce(d) + half + tol;
      double a = start(d), v = end(d) - start(d);
      if (std::fabs(v) < 1e-300) {
        hit = hit && a >= lo && a <= hi;
        continue;
      }
      double x = (lo - a) / v, y = (hi - a) / v;
      t0 = std::max(t0, std::min(x, y));
      t1 = std::min(t1, std::max(x, y));
    }
    PBT_REQUIRE("on-the-ray", hit && t0 <= t1, "cell ", i.first, ",", i.second, " is not touched by the segment");
    PBT_REQUIRE("ordered", t0 >= lastEntry - 1e-9, "cells are not ordered along the ray");
    lastEntry = t0;
    prev = i;
  }
  // nothing else came into being
  for (auto& w : where)
    if (!before.count(w.second))
      PBT_REQUIRE("only-ray-created", visited.count(w.second), "cell ", w.second.first, ",", w.second.second, " was created off the ray");
  // completeness: a cell crossed over more than a half-cell step and at least
  // one cell before the end of the ray, up to where the ray leaves the grid
  double len = std::max(std::fabs(end(0) - start(0)), std::fabs(end(1) - start(1))) / cs;
  double tEnd = len > 0 ? (std::floor(len) - 1.0) / len : -1;
  // clip at the grid border
  double tOut = 1;
  double lo[2] = {(-static_cast<double>(s.m.left) - 0.5) * cs, (-static_cast<double>(s.m.down) - 0.5) * cs};
  double hi[2] = {(static_cast<double>(s.m.right) + 0.5) * cs, (static_cast<double>(s.m.up) + 0.5) * cs};
  for (int d = 0; d < 2; ++d) {
    double v = end(d) - start(d);
    if (v > 0)
      tOut = std::min(tOut, (hi[d] - start(d)) / v);
    else if (v < 0)
      tOut = std::min(tOut, (lo[d] - start(d)) / v);
  }
  double tMax = std::min(tEnd, tOut);
  size_t required = 0;
  if (tMax > 0 && len >= 1) {
    for (long y = -s.m.down; y <= s.m.up; ++y)
      for (long x = -s.m.left; x <= s.m.right; ++x) {
        Pt ce = centre(Ix(x, y), cs);
        double t0 = 0, t1 = tMax;
        bool hit = true;
        for (int d = 0; d < 2; ++d) {
          double a = start(d), v = end(d) - start(d);
          double l = ce(d) - half + tol, h = ce(d) + half - tol;
          if (std::fabs(v) < 1e-300) {
            hit = hit && a >= l && a <= h;
            continue;
          }
          double p = (l - a) / v, q = (h - a) / v;
          t0 = std::max(t0, std::min(p, q));
          t1 = std::min(t1, std::max(p, q));
        }
        if (hit && (t1 - t0) * len > 0.5 + 1e-3) {
          ++required;
          PBT_REQUIRE("complete", visited.count(Ix(x, y)), "the ray crosses cell ", x, ",", y, " but it is missing");
        }
      }
  }
  if (len < 1)
    c.label("ray shorter than a cell");
  if (tOut < 1)
    c.label("ray leaves the grid");
  if (start == end)
    c.label("ray of length zero");
  c.nontrivial(required >= 2 || len < 1);
}
// the centre of the cell a position is in
PBT_TEST(cell_centre, 40000, 1000000)
{
  Scene s;
  build(c, s);
  double cs = s.m.cs;
  for (int k = 0; k < 8; ++k) {
    Ix i = genIx(c, 8);
    if (!s.m.inside(i))
      continue;
    Pt p = pointIn(c, i, cs), want = centre(i, cs);
    auto got = s.g.getCentroid(p);
    c.note("position ", p.transpose(), " centre ", got.first, " ", got.second);
    c.nontrivial(i != Ix(0, 0));
    PBT_REQUIRE("centre", std::fabs(got.first - want(0)) <= 1e-6 * (cs + std::fabs(want(0))) &&
                              std::fabs(got.second - want(1)) <= 1e-6 * (cs + std::fabs(want(1))),
                got.first, " ", got.second, " want ", want.transpose());
  }
}
PBT_MAIN()
