#pragma once
// histories of operations on one NDT grid beside its model
#include "ndtgrid_common.h"
struct Sim {
  Case& c;
  Grid g;
  Model m;
  double span;  // half extent of the area used
  size_t merged = 0, fused = 0, moves = 0, turns = 0, traced = 0, dropped = 0;
  explicit Sim(Case& cc, bool heading) : c(cc)
  {
    m.cs = genCellSize(c);
    span = m.cs * static_cast<double>(c.range(2, 7));
    m.origin = genPose(c, 5);
    if (!heading)
      m.origin(2) = 0;
    g = Grid(m.origin);
    g.setCellSize(static_cast<float>(m.cs));
    c.note("cell ", m.cs, " origin ", str(m.origin));
    if (c.coin(50)) {
      float e = static_cast<float>(span);
      g.enlarge(-e, -e, e, e);
    }
  }
  void count(const std::vector<Cell>& v)
  {
    for (auto& x : v)
      if (x.hasGaussian()) {
        ++merged;
        auto it = m.cells.find(cellAt(m.cs, x.getMean().head<2>()));
        if (it != m.cells.end() && it->second.hasGaussian())
          ++fused;
      }
  }
  void apply(const std::vector<Cell>& v, bool tr, const V2& start, bool resize)
  {
    c.assume(m.clear_cut(v));
    Shape s = shapeOf(g);
    if (tr) {
      m.trace(v, start, s);
      ++traced;
    }
    count(v);
    m.merge(v, resize, s);
  }
  void mergeScan()
  {
    V3 at = c.coin(30) ? m.origin : V3(m.origin + genPose(c, span * 0.5));
    if (c.coin(30))
      at(2) = m.origin(2);
    T2 t = frame(m.origin).inverse() * frame(at);
    std::vector<P> pts = awayFromBorders(genScan(c, m.cs, span, 4), t, m.cs);
    bool tr = c.coin(50), resize = c.coin(60);
    std::vector<P> in;
    for (auto& p : pts)
      in.push_back(moved(t, p));
    c.note(tr ? "traced scan" : "scan", " from ", str(at), " points ", pts.size(), resize ? " growing" : " clipped");
    apply(m.scan(in), tr, t.translation(), resize);
    if (tr)
      g.mergeInTraced(cloudOf(pts), at, resize);
    else
      g.mergeIn(cloudOf(pts), at, resize);
  }
  // another grid with its own history
  void buildOther(Grid& o, Model& om, bool history)
  {
    om.origin = c.coin(20) ? m.origin : V3(m.origin + genPose(c, span * 0.5));
    om.cs = c.coin(80) ? m.cs : genCellSize(c);
    o = Grid(om.origin);
    o.setCellSize(static_cast<float>(om.cs));
    size_t k = history ? static_cast<size_t>(c.range(1, 2)) : 1;
    for (size_t i = 0; i < k; ++i) {
      std::vector<P> pts = awayFromBorders(genScan(c, m.cs, span * 0.7, 4), T2::Identity(), om.cs);
      std::vector<Cell> cells = om.scan(pts);
      Shape s = shapeOf(o);
      c.assume(om.clear_cut(cells));
      om.trace(cells, V2(0, 0), s);
      om.merge(cells, true, s);
      o.mergeInTraced(cloudOf(pts), om.origin, true);
    }
  }
  void mergeGrid()
  {
    Grid o;
    Model om;
    buildOther(o, om, true);
    bool change = c.coin(75), tr = c.coin(50), resize = c.coin(60);
    T2 t = frame(m.origin).inverse() * frame(om.origin);
    std::vector<Cell> cells = om.list();
    if (change)
      cells = movedCells(cells, t);
    c.note(tr ? "traced grid" : "grid", " from ", str(om.origin), change ? " transformed" : "", resize ? " growing" : " clipped");
    apply(cells, tr, t.translation(), resize);
    if (tr)
      g.mergeInTraced(o, change, resize);
    else
      g.mergeIn(o, change, resize);
    sameContent("source-untouched", o, om);
  }
  void mergeCells()
  {
    Grid o;
    Model om;
    buildOther(o, om, false);
    std::vector<Cell> cells = om.list();
    for (size_t i = cells.size(); i > 1; --i)
      std::swap(cells[i - 1], cells[c.draw(i)]);
    bool resize = c.coin(60);
    c.note("cells ", cells.size(), resize ? " growing" : " clipped");
    apply(cells, false, V2(0, 0), resize);
    g.mergeIn(cells, resize);
  }
  void clear()
  {
    c.note("clear");
    g.clear();
    m.cells.clear();
    m.started = false;
    PBT_REQUIRE("clear-means", !g.getMeans() || g.getMeans()->size() == 0, "means left after clear: ", g.getMeans()->size());
    PBT_REQUIRE("clear-nearest", g.getKNearestNeighbors(V2(0, 0), 3).empty(), "cells found in an empty grid");
  }
  // the origin moves by whole cells, what is outside the extent is gone, the
  // distributions stay where they are in the world
  void move()
  {
    T2 t = T2::Identity();
    if (c.coin(50))
      t.linear() = Eigen::Rotation2Dd(c.angle()).toRotationMatrix();
    double r = c.coin(70) ? 3 * m.cs : span * 2.5;
    t.translation() = V2(c.real(-r, r), c.real(-r, r));
    long k[2];
    for (int i = 0; i < 2; ++i) {
      double q = t.translation()(i) / m.cs;
      c.assume(std::fabs(std::fabs(q) - std::round(std::fabs(q))) > 1e-9 || q == std::round(q));
      k[i] = static_cast<long>(q);
    }
    c.note("move ", str(V2(t.translation())), " heading ", std::atan2(t(1, 0), t(0, 0)));
    Shape s = shapeOf(g);
    T2 rest = g.move(t);
    if (std::fabs(m.origin(2)) > 1e-7) {
      PBT_REQUIRE("rotated-grid-refuses", rest.matrix() == t.matrix(), "");
      return;
    }
    V2 step(static_cast<double>(k[0]) * m.cs, static_cast<double>(k[1]) * m.cs);
    PBT_REQUIRE("residual", (V2(rest.translation()) - (V2(t.translation()) - step)).norm() < 1e-9 &&
                                (rest.linear() - t.linear()).norm() < 1e-12,
                "residual ", str(V2(rest.translation())), " for ", str(V2(t.translation())), " cell ", m.cs);
    if (k[0] == 0 && k[1] == 0)
      return;
    ++moves;
    m.origin.head<2>() += step;
    std::map<Ix, Cell> old;
    old.swap(m.cells);
    for (auto& x : old) {
      Ix i(x.first.first - k[0], x.first.second - k[1]);
      if (i.first >= -s.left && i.first <= s.right && i.second >= -s.down && i.second <= s.up) {
        Cell y = x.second;
        if (y.hasGaussian())
          y.setMean(y.getMean() - V3(step(0), step(1), 0));
        m.cells[i] = y;
      } else
        ++dropped;
    }
  }
  // the whole content turns about the grid's origin, which is shifted
  void turn()
  {
    T2 t = T2::Identity();
    if (c.coin(80))
      t.linear() = Eigen::Rotation2Dd(c.angle()).toRotationMatrix();
    t.translation() = V2(c.real(-3, 3), c.real(-3, 3));
    T2 rot = t;
    rot.translation().setZero();
    std::vector<Cell> cells;
    for (auto& x : m.list())
      if (x.hasGaussian())
        cells.push_back(x);
    cells = movedCells(cells, rot);
    c.assume(m.clear_cut(cells));
    c.note("transform ", str(V2(t.translation())), " turn ", std::atan2(t(1, 0), t(0, 0)));
    m.cells.clear();
    for (auto& x : cells)
      m.add(x);
    m.origin.head<2>() += V2(t.translation());
    g.transform(t);
    ++turns;
  }
  void check()
  {
    sameContent("content", g, m);
    V3 o = g.getOrigin();
    PBT_REQUIRE("origin", (o - m.origin).head<2>().norm() < 1e-9, str(o), " want ", str(m.origin));
    size_t n = 0;
    for (auto& x : m.cells)
      n += x.second.hasGaussian();
    PBT_REQUIRE("means", g.getMeans()->size() == n, "means ", g.getMeans()->size(), " distributions ", n);
  }
};
