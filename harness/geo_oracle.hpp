// Double-precision planar geometry used as reference, independent of the library's algorithms.
#pragma once
#include "common.hpp"
#include "Simu/math.hpp"
#include <algorithm>

namespace ref
{
struct P
{
    double x = 0, y = 0;
    P() = default;
    P(double a, double b) : x{a}, y{b} {}
    P(simu::Vec2 v) : x{v[0]}, y{v[1]} {}
    P operator+(P o) const { return {x + o.x, y + o.y}; }
    P operator-(P o) const { return {x - o.x, y - o.y}; }
    P operator*(double k) const { return {x * k, y * k}; }
    bool operator==(P o) const { return x == o.x && y == o.y; }
};
inline double dot(P a, P b) { return a.x * b.x + a.y * b.y; }
inline double cross(P a, P b) { return a.x * b.y - a.y * b.x; }
inline double norm(P a) { return std::hypot(a.x, a.y); }
typedef std::vector<P> Poly;

// strict convex hull, counter clockwise
inline Poly hull(Poly p)
{
    std::sort(p.begin(), p.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3) return p;
    Poly h(2 * p.size());
    size_t k = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        while (k >= 2 && cross(h[k - 1] - h[k - 2], p[i] - h[k - 1]) <= 0) --k;
        h[k++] = p[i];
    }
    for (size_t i = p.size() - 1, t = k + 1; i > 0; --i)
    {
        while (k >= t && cross(h[k - 1] - h[k - 2], p[i - 1] - h[k - 1]) <= 0) --k;
        h[k++] = p[i - 1];
    }
    h.resize(k - 1);
    return h;
}
inline Poly minkowski(const Poly& a, const Poly& b)
{
    Poly m;
    for (P p : a) for (P q : b) m.push_back(p - q);
    return hull(m);
}
inline P closestOnSegment(P a, P b, P q)
{
    P d = b - a;
    double n = dot(d, d);
    double t = n == 0 ? 0 : dot(q - a, d) / n;
    t = std::clamp(t, 0.0, 1.0);
    return a + d * t;
}
inline double area(const Poly& p)
{
    double s = 0;
    for (size_t i = 0; i < p.size(); ++i) s += cross(p[i], p[(i + 1) % p.size()]);
    return s / 2;
}
// signed distance of q to a convex ccw polygon, negative inside
inline double signedDistance(const Poly& h, P q)
{
    bool inside = h.size() >= 3;
    double d = 1e300;
    for (size_t i = 0; i < h.size(); ++i)
    {
        P a = h[i], b = h[(i + 1) % h.size()];
        if (cross(b - a, q - a) < 0) inside = false;
        d = std::min(d, norm(closestOnSegment(a, b, q) - q));
    }
    return inside ? -d : d;
}
inline P closestOnPolygon(const Poly& h, P q)
{
    P best;
    double d = 1e300;
    for (size_t i = 0; i < h.size(); ++i)
    {
        P c = closestOnSegment(h[i], h[(i + 1) % h.size()], q);
        if (norm(c - q) < d) { d = norm(c - q); best = c; }
    }
    return best;
}
// > 0: distance between the shapes, < 0: minus the penetration depth, 0 touching
inline double gap(const Poly& a, const Poly& b) { return signedDistance(minkowski(a, b), P{0, 0}); }

template <class G>
Poly toPoly(const G& g)
{
    Poly p;
    for (const auto& v : g) p.push_back(P{v});
    return p;
}
inline double diameter(const Poly& a)
{
    double d = 0;
    for (P p : a) for (P q : a) d = std::max(d, norm(p - q));
    return d;
}
inline double extent(const Poly& a)
{
    double d = 0;
    for (P p : a) d = std::max({d, std::abs(p.x), std::abs(p.y)});
    return d;
}
inline simu::Vec2 v2(P p) { return simu::Vec2{float(p.x), float(p.y)}; }

// random convex polygons -----------------------------------------------------
inline simu::Vertices toVertices(const Poly& p)
{
    simu::Vertices v;
    for (P q : p) v.push_back(v2(q));
    return v;
}
// convex polygon on the integer lattice (exact in float), 3..n vertices
inline Poly latticeConvex(vf::Rng& r, int n, int range, int cx = 0, int cy = 0)
{
    for (int k = 0; k < 100; ++k)
    {
        Poly p;
        for (int i = 0; i < n; ++i) p.push_back(P{double(cx + r.i(-range, range)), double(cy + r.i(-range, range))});
        p = hull(p);
        if (p.size() >= 3) return p;
    }
    return {P{double(cx), double(cy)}, P{double(cx + 1), double(cy)}, P{double(cx), double(cy + 1)}};
}
// polygon inscribed in an ellipse, float coordinates
inline Poly roundConvex(vf::Rng& r, int n, double size, double aspect, P c, double theta)
{
    for (int k = 0; k < 100; ++k)
    {
        std::vector<double> a;
        for (int i = 0; i < n; ++i) a.push_back(r.d(0, 6.283185307179586));
        std::sort(a.begin(), a.end());
        bool ok = true;
        for (int i = 0; i < n; ++i)
        {
            double g = i + 1 < n ? a[i + 1] - a[i] : a[0] + 6.283185307179586 - a[n - 1];
            if (g < 0.9 / n || g > 3.0) ok = false;
        }
        if (!ok && k < 99) continue;
        if (!ok)
            for (int i = 0; i < n; ++i) a[i] = 6.283185307179586 * i / n;
        Poly p;
        for (double t : a)
        {
            double x = size * std::cos(t), y = size * aspect * std::sin(t);
            P q{c.x + std::cos(theta) * x - std::sin(theta) * y, c.y + std::sin(theta) * x + std::cos(theta) * y};
            p.push_back(P{v2(q)});
        }
        return p;
    }
    return {};
}
inline Poly boxPoly(double w, double h, P c, double theta)
{
    Poly p;
    for (auto [x, y] : {std::pair{-w, -h}, {w, -h}, {w, h}, {-w, h}})
    {
        P q{c.x + (std::cos(theta) * x - std::sin(theta) * y) / 2, c.y + (std::sin(theta) * x + std::cos(theta) * y) / 2};
        p.push_back(P{v2(q)});
    }
    return p;
}
} // namespace ref
