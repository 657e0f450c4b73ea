#pragma once
// a robot with a laser scanner driving through generated rooms
#include "scene_common.h"
#include <ndt_gslam/ndt_slam_algorithm.h>
#include <iostream>
#include <random>
struct MuteAll {
  std::stringstream sink;
  std::streambuf* old;
  MuteAll() : old(std::cout.rdbuf(sink.rdbuf()))
  {
    std::cerr.setstate(std::ios::badbit);
  }
  ~MuteAll()
  {
    std::cout.rdbuf(old);
    std::cerr.clear();
  }
};
inline V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), pbt::wrapPi(a(2) + b(2)));
}
inline V3 inv(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), pbt::wrapPi(-a(2)));
}
struct Wall {
  V2 a, b;
};
struct House {
  std::vector<Wall> walls;
  double w, h;
  double clearance(const V2& p) const
  {
    double best = 1e9;
    for (auto& x : walls) {
      V2 d = x.b - x.a;
      double t = std::min(1.0, std::max(0.0, (p - x.a).dot(d) / d.squaredNorm()));
      best = std::min(best, (x.a + t * d - p).norm());
    }
    return best;
  }
  double ray(const V2& p, double th) const
  {
    V2 u(std::cos(th), std::sin(th));
    double best = 1e9;
    for (auto& x : walls) {
      V2 d = x.b - x.a, q = x.a - p;
      double det = u(0) * -d(1) + u(1) * d(0);
      if (std::fabs(det) < 1e-12)
        continue;
      double r = (q(0) * -d(1) + q(1) * d(0)) / det, t = (u(0) * q(1) - u(1) * q(0)) / det;
      if (r > 0 && t >= 0 && t <= 1)
        best = std::min(best, r);
    }
    return best;
  }
  Cloud scan(Case& c, const V3& from, size_t beams, double noise, double reach = 30) const
  {
    Cloud s;
    std::mt19937_64 rng(noise > 0 ? c.draw(1u << 30) : 0);
    std::uniform_real_distribution<double> u(-1, 1);
    for (size_t i = 0; i < beams; ++i) {
      double th = 2 * M_PI * static_cast<double>(i) / static_cast<double>(beams);
      double r = ray(from.head<2>(), from(2) + th);
      if (r > reach)
        continue;
      if (noise > 0)
        r += noise * u(rng);
      s.push_back(P(static_cast<float>(r * std::cos(th)), static_cast<float>(r * std::sin(th)), 0));
    }
    return s;
  }
};
inline House genHouse(Case& c)
{
  House r;
  r.w = c.uniform(3, 4);
  r.h = c.uniform(4.5, 6);
  std::vector<V2> k{V2(-r.w, -r.h), V2(r.w, -r.h), V2(r.w, 0.1 * r.h), V2(0.6 * r.w, 0.3 * r.h), V2(0.7 * r.w, r.h), V2(-r.w, r.h)};
  for (size_t i = 0; i < k.size(); ++i)
    r.walls.push_back({k[i], k[(i + 1) % k.size()]});
  size_t n = static_cast<size_t>(c.range(2, 5));
  for (size_t i = 0; i < n; ++i) {
    V2 a(c.uniform(-0.8, 0.8) * r.w, c.uniform(-0.8, 0.8) * r.h);
    double th = c.angle();
    V2 u(std::cos(th), std::sin(th)), v(-u(1), u(0));
    double l = c.uniform(0.4, 1.2), m = c.uniform(0.3, 1);
    r.walls.push_back({a, a + l * u});
    r.walls.push_back({a + l * u, a + l * u + m * v});
    r.walls.push_back({a + l * u + m * v, a + m * v});
    r.walls.push_back({a + m * v, a});
  }
  return r;
}
