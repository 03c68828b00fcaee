// M04..M09: transforms, boxes, polygons, nearest points, convex collision queries.
#include "common.hpp"
#include "geo_oracle.hpp"
#include "Simu/math.hpp"
#include "Simu/math/Gjk.hpp"
#include "Simu/math/Edges.hpp"
#include "Simu/math/BarycentricCoordinates.hpp"
#include "Simu/physics/BoundingBox.hpp"
#include "Simu/physics/Transform.hpp"
#include <limits>
#include <list>
#include <optional>

using namespace simu;
using ref::P;
using ref::Poly;
using vf::Ctx;
using vf::Hash;
using vf::Rng;

// ---------------------------------------------------------------- M04
namespace
{
struct Rigid  // reference rigid motion in double
{
    double th = 0;
    P t{};
    P apply(P p) const { return P{std::cos(th) * p.x - std::sin(th) * p.y + t.x, std::sin(th) * p.x + std::cos(th) * p.y + t.y}; }
    Rigid then(const Rigid& o) const { return Rigid{th + o.th, o.apply(t)}; }  // this first, then o
};
float anyAngle(Rng& r)
{
    switch (r.i(0, 4))
    {
        case 0: return 0.f;
        case 1: return r.f(-3.2, 3.2);
        case 2: return r.f(-20, 20);
        case 3: return float(r.i(-8, 8)) * 1.57079632679f;
        default: return r.f(-0.01, 0.01);
    }
}
Vec2 anyOffset(Rng& r)
{
    switch (r.i(0, 3))
    {
        case 0: return Vec2{};
        case 1: return Vec2{r.f(-1, 1), r.f(-1, 1)};
        case 2: return Vec2{r.f(-50, 50), r.f(-50, 50)};
        default: return Vec2{float(r.i(-3, 3)), float(r.i(-3, 3))};
    }
}
} // namespace

VF_PROPERTY(M04)
{
    Rng& r = ctx.rng;
    Transform T = Transform::identity();
    Rigid R;
    Hash h;
    double absTheta = 1, absPos = 1;
    int len = r.i(1, 24);
    float thetaSum = 0.f;
    auto near_ = [&](Vec2 a, P b, double scale, const char* sig) {
        double tol = 3e-6 * (1 + absTheta) * (scale + absPos) * (1 + len * 0.2);
        double e = ref::norm(P{a} - b);
        ctx.max("transform_error_over_tol", e / tol);
        VF_CHECK(ctx, e <= tol, sig, "got (%g,%g) want (%g,%g) tol %g after %d operations", a[0], a[1], b.x, b.y, tol, len);
    };
    auto points = [&] {
        std::vector<Vec2> p{Vec2{}, Vec2{1, 0}, Vec2{0, 1}};
        for (int k = 0; k < 3; ++k) p.push_back(Vec2{r.f(-10, 10), r.f(-10, 10)});
        return p;
    };
    for (int k = 0; k < len; ++k)
    {
        float a = anyAngle(r);
        Vec2 t = anyOffset(r);
        absTheta += std::abs(a) * 0.2;
        absPos += norm(t);
        Rigid ra{a, P{}}, rt{0, P{t}}, rb{a, P{t}};
        int op = r.i(0, 9);
        h.add(uint64_t(op)).add(a).add(t[0]).add(t[1]);
        Vec2 probe{r.f(-5, 5), r.f(-5, 5)};
        switch (op)
        {
            case 0: T = Transform::rotation(a) * T; R = R.then(ra); thetaSum += a; break;
            case 1: T = Transform::translation(t) * T; R = R.then(rt); break;
            case 2: T = Transform{Rotation{a}, Translation{t}} * T; R = R.then(rb); thetaSum += a; break;
            case 3: T = T * Transform::rotation(a); R = ra.then(R); thetaSum += a; break;
            case 4: T = T * Transform::translation(t); R = rt.then(R); break;
            case 5: T = T * Transform{Rotation{a}, Translation{t}}; R = rb.then(R); thetaSum += a; break;
            case 6: // rotation then translation composed first
                T = (Transform::rotation(a) * Transform::translation(t)) * T; R = R.then(rt).then(ra); thetaSum += a; break;
            case 7:
                T = (Transform::translation(t) * Transform::rotation(a)) * T; R = R.then(ra).then(rt); thetaSum += a; break;
            case 8: // in place forms used by the integrator
                T.rotation() *= Rotation{a};
                T.translation() *= Translation{t};
                R = Rigid{R.th + a, R.t + P{t}}; thetaSum += a; break;
            default:
            {
                Vec2 o{r.f(-5, 5), r.f(-5, 5)};
                absPos += 2 * norm(o);
                Transform A = Transform::transformAround(a, t, o);
                Rigid rr = Rigid{0, P{} - P{o}}.then(ra).then(Rigid{0, P{o} + P{t}});
                near_(A * probe, rr.apply(P{probe}), norm(probe), "transform-around");
                near_(A * o, P{o} + P{t}, norm(o), "transform-around-centre");
                T = A * T; R = R.then(rr); thetaSum += a;
            }
        }
        double th = T.rotation().theta();
        ctx.max("turns", std::abs(th) / 6.2831853);
        VF_CHECK(ctx, std::abs(th - R.th) <= 1e-6 * absTheta * 10 * (len + 2), "angle-accumulates",
                 "orientation %g, sum of the angles %g", th, R.th);
    }
    for (Vec2 p : points())
    {
        near_(T * p, R.apply(P{p}), norm(p), "composition");
        Mat3 M{T};
        near_(M * p, R.apply(P{p}), norm(p), "matrix-form");
        Vec2 q = T * p;
        near_(T.inverse() * q, P{p}, norm(p), "inverse-undoes");
        near_(T * (T.inverse() * p), P{p}, norm(p), "inverse-undoes-left");
        near_((T * T.inverse()) * p, P{p}, norm(p), "inverse-composed");
        near_((T.inverse() * T) * p, P{p}, norm(p), "inverse-composed-left");
        // the parts on their own
        Rotation ro = T.rotation();
        Translation tr = T.translation();
        near_(ro * p, Rigid{R.th, P{}}.apply(P{p}), norm(p), "rotation-alone");
        near_(ro.inverse() * (ro * p), P{p}, norm(p), "rotation-inverse");
        near_(Mat3{ro} * p, Rigid{R.th, P{}}.apply(P{p}), norm(p), "rotation-matrix");
        near_(tr * p, P{p} + R.t, norm(p), "translation-alone");
        near_(tr.inverse() * (tr * p), P{p}, norm(p), "translation-inverse");
        near_(Mat3{tr} * p, P{p} + R.t, norm(p), "translation-matrix");
        near_((tr * tr) * p, P{p} + R.t + R.t, norm(p), "translation-product");
        near_((ro * ro) * p, Rigid{2 * R.th, P{}}.apply(P{p}), norm(p), "rotation-product");
    }
    VF_CHECK(ctx, std::abs(T.rotation().inverse().theta() + T.rotation().theta()) == 0, "inverse-angle", "inverse angle");
    Vec2 a{r.f(-10, 10), r.f(-10, 10)}, b{r.f(-10, 10), r.f(-10, 10)}, c{r.f(-10, 10), r.f(-10, 10)};
    double d0 = ref::norm(P{a} - P{b}), d1 = ref::norm(P{T * a} - P{T * b});
    double tolp = 3e-6 * (absPos + 20) * (1 + len * 0.2);
    VF_CHECK(ctx, std::abs(d0 - d1) <= tolp, "distance-preserved", "%g became %g", d0, d1);
    double c0 = ref::cross(P{b} - P{a}, P{c} - P{a}), c1 = ref::cross(P{T * b} - P{T * a}, P{T * c} - P{T * a});
    VF_CHECK(ctx, std::abs(c0 - c1) <= tolp * 60, "handedness-preserved", "%g became %g", c0, c1);
    ctx.count("chains");
    ctx.count("compositions", len);
    ctx.state(h);
    ctx.sample("%d compositions, orientation %g, offset (%g,%g)", len, double(T.rotation().theta()), double(T.translation().offset()[0]),
               double(T.translation().offset()[1]));
}

// ---------------------------------------------------------------- M05
namespace
{
float coordinate(Rng& r, int style)
{
    switch (style)
    {
        case 0: return float(r.i(-4, 4));
        case 1: return r.f(-10, 10);
        case 2:
        {
            float v = float(r.i(-3, 3)) + 0.1f;
            int n = r.i(0, 3);
            for (int k = 0; k < n; ++k) v = std::nextafter(v, r.chance(0.5) ? 100.f : -100.f);
            return v;
        }
        case 3: return r.logf_(1e-20, 1e20) * (r.chance(0.5) ? 1.f : -1.f);
        case 4: return r.f(1000, 1001);
        case 5: return (r.chance(0.5) ? 1.f : -1.f) * r.pick(std::vector<float>{3e38f, 1e38f, 1e-40f, 0.f, 1.f});
        default: return r.f(-1e-3, 1e-3) + (r.chance(0.3) ? 4096.f : 0.f);
    }
}
struct RBox
{
    double lo[2], hi[2];
    bool valid() const { return lo[0] <= hi[0] && lo[1] <= hi[1]; }
};
} // namespace

VF_PROPERTY(M05)
{
    Rng& r = ctx.rng;
    int style = r.i(0, 6);
    auto co = [&] { return coordinate(r, style); };
    Hash h;
    // intervals: closed ranges of floats, exact
    for (int k = 0; k < 40; ++k)
    {
        float a0 = co(), a1 = co(), b0 = co(), b1 = co(), v = co();
        if (r.chance(0.9) && a0 > a1) std::swap(a0, a1);
        if (r.chance(0.9) && b0 > b1) std::swap(b0, b1);
        if (r.chance(0.3)) b0 = a1;
        if (r.chance(0.1)) v = a0;
        if (r.chance(0.1)) v = a1;
        Interval<float> A{a0, a1}, B{b0, b1};
        bool share = std::max(a0, b0) <= std::min(a1, b1);
        VF_CHECK(ctx, A.contains(v) == (a0 <= v && v <= a1), "interval-contains", "[%.9g,%.9g] contains %.9g", a0, a1, v);
        VF_CHECK(ctx, A.overlaps(B) == share, "interval-overlaps", "[%.9g,%.9g] and [%.9g,%.9g]: answered %d", a0, a1, b0, b1, int(!share));
        VF_CHECK(ctx, B.overlaps(A) == share, "interval-overlaps-swapped", "[%.9g,%.9g] and [%.9g,%.9g]", b0, b1, a0, a1);
        ctx.count(share ? "intervals_meeting" : "intervals_apart");
        if (share && (a1 == b0 || b1 == a0)) ctx.count("intervals_touching");
    }
    auto makeBox = [&](float x0, float y0, float x1, float y1, bool keep) {
        if (!keep)
        {
            if (x0 > x1) std::swap(x0, x1);
            if (y0 > y1) std::swap(y0, y1);
        }
        return std::pair{BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}}, RBox{{x0, y0}, {x1, y1}}};
    };
    std::vector<std::pair<BoundingBox, RBox>> boxes;
    for (int k = 0; k < 10; ++k)
    {
        auto b = makeBox(co(), co(), co(), co(), r.chance(0.08));
        if (!boxes.empty() && r.chance(0.4))
        { // touching or nested relative to an earlier one
            auto& o = boxes[size_t(r.i(0, int(boxes.size()) - 1))].second;
            switch (r.i(0, 3))
            {
                case 0: b = makeBox(float(o.hi[0]), co(), co(), co(), false); break;
                case 1: b = makeBox(co(), float(o.lo[1]), co(), float(o.hi[1]), false); break;
                case 2: b = makeBox(std::nextafter(float(o.hi[0]), 3e38f), co(), 3e38f, co(), false); break;
                default: b = makeBox(float(o.lo[0]), float(o.lo[1]), float(o.hi[0]), float(o.hi[1]), true); break;
            }
        }
        if (r.chance(0.05)) { b.first = BoundingBox{}; b.second = RBox{{1, 1}, {0, 0}}; }
        boxes.push_back(b);
        h.add(b.second.lo[0]).add(b.second.lo[1]).add(b.second.hi[0]).add(b.second.hi[1]);
    }
    auto str = [](const RBox& b) {
        char s[200];
        snprintf(s, sizeof s, "[(%.9g,%.9g),(%.9g,%.9g)]", b.lo[0], b.lo[1], b.hi[0], b.hi[1]);
        return std::string(s);
    };
    for (auto& [A, a] : boxes)
    {
        VF_CHECK(ctx, A.isValid() == a.valid(), "box-valid", "%s", str(a).c_str());
        if (a.valid())
        {
            VF_CHECK(ctx, A.min()[0] == a.lo[0] && A.min()[1] == a.lo[1] && A.max()[0] == a.hi[0] && A.max()[1] == a.hi[1], "box-corners", "%s", str(a).c_str());
            if (style < 3 && std::max({std::abs(a.lo[0]), std::abs(a.lo[1]), std::abs(a.hi[0]), std::abs(a.hi[1])}) < 100)
            {
                Vec2 c = A.center();
                VF_CHECK(ctx, std::abs(c[0] - (a.lo[0] + a.hi[0]) / 2) < 1e-5 && std::abs(c[1] - (a.lo[1] + a.hi[1]) / 2) < 1e-5, "box-center", "%s", str(a).c_str());
                float k = r.f(0.1, 3);
                BoundingBox S = BoundingBox::scaled(A, k);
                for (int d = 0; d < 2; ++d)
                {
                    double mid = (a.lo[d] + a.hi[d]) / 2, half = (a.hi[d] - a.lo[d]) / 2 * k;
                    VF_CHECK(ctx, std::abs(S.min()[d] - (mid - half)) < 1e-4 && std::abs(S.max()[d] - (mid + half)) < 1e-4, "box-scaled", "%s by %g", str(a).c_str(), k);
                }
            }
        }
        for (auto& [B, b] : boxes)
        {
            bool ov = a.valid() && b.valid(), in = ov;
            for (int d = 0; d < 2; ++d)
            {
                ov = ov && a.lo[d] <= b.hi[d] && b.lo[d] <= a.hi[d];
                in = in && a.lo[d] <= b.lo[d] && b.hi[d] <= a.hi[d];
            }
            VF_CHECK(ctx, A.overlaps(B) == ov, "box-overlaps", "%s and %s: answered %d", str(a).c_str(), str(b).c_str(), int(!ov));
            VF_CHECK(ctx, A.contains(B) == in, "box-contains", "%s contains %s: answered %d", str(a).c_str(), str(b).c_str(), int(!in));
            BoundingBox C = A.combined(B);
            if (!a.valid() && !b.valid())
                VF_CHECK(ctx, !C.isValid(), "box-combined", "two invalid boxes combine into a valid one");
            else
            {
                for (int d = 0; d < 2; ++d)
                {
                    double lo = !a.valid() ? b.lo[d] : !b.valid() ? a.lo[d] : std::min(a.lo[d], b.lo[d]);
                    double hi = !a.valid() ? b.hi[d] : !b.valid() ? a.hi[d] : std::max(a.hi[d], b.hi[d]);
                    VF_CHECK(ctx, C.min()[d] == lo && C.max()[d] == hi, "box-combined", "%s with %s", str(a).c_str(), str(b).c_str());
                }
            }
            bool eq = (!a.valid() && !b.valid())
                      || (a.lo[0] == b.lo[0] && a.lo[1] == b.lo[1] && a.hi[0] == b.hi[0] && a.hi[1] == b.hi[1]);
            VF_CHECK(ctx, (A == B) == eq && (A != B) == !eq, "box-equality", "%s == %s", str(a).c_str(), str(b).c_str());
            ctx.count(ov ? "boxes_overlapping" : "boxes_apart");
            if (in) ctx.count("boxes_nested");
            if (!a.valid() || !b.valid()) ctx.count("boxes_invalid");
        }
    }
    // boxes of point sets
    int n = r.i(0, 9);
    std::vector<Vec2> pts;
    for (int k = 0; k < n; ++k) pts.push_back(Vec2{co(), co()});
    {
        // dirty the stack so that an uninitialised box is not accidentally invalid
        volatile float dirt[32];
        for (int k = 0; k < 32; ++k) dirt[k] = (k % 4 < 2) ? -1000.f : 1000.f;
        (void)dirt[5];
    }
    BoundingBox F = r.chance(0.5) ? BoundingBox{pts.begin(), pts.end()} : BoundingBox{pts};
    std::list<Vec2> lst(pts.begin(), pts.end());
    BoundingBox L{lst.begin(), lst.end()};
    if (n == 0)
    {
        alignas(BoundingBox) unsigned char raw[sizeof(BoundingBox)];
        for (size_t k = 0; k < sizeof raw; k += 4) { float f = k < sizeof raw / 2 ? -7.f : 7.f; std::memcpy(raw + k, &f, 4); }
        BoundingBox* E = new (raw) BoundingBox{pts.begin(), pts.end()};
        VF_CHECK(ctx, !E->isValid(), "box-of-nothing", "a box around no points is valid");
        VF_CHECK(ctx, !F.isValid() && !L.isValid(), "box-of-nothing", "a box around no points is valid");
        ctx.count("boxes_of_nothing");
    }
    else
    {
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (auto& p : pts)
            for (int d = 0; d < 2; ++d) { lo[d] = std::min(lo[d], double(p[d])); hi[d] = std::max(hi[d], double(p[d])); }
        for (int d = 0; d < 2; ++d)
            VF_CHECK(ctx, F.min()[d] == lo[d] && F.max()[d] == hi[d] && L.min()[d] == lo[d] && L.max()[d] == hi[d], "box-of-points", "axis %d of %d points", d, n);
        ctx.count("boxes_of_points");
    }
    {
        float v = coordinate(r, 0), e = r.f(-1, 1), q = coordinate(r, r.i(0, 1));
        bool want = std::abs(double(v) - double(q)) <= std::abs(double(e));
        if (std::abs(std::abs(double(v) - q) - std::abs(double(e))) > 1e-5)
            VF_CHECK(ctx, approx(v, e).contains(q) == want, "approx", "%g +/- %g contains %g", v, e, q);
    }
    ctx.state(h);
    ctx.sample("style %d: %zu boxes all against all, box of %d points", style, boxes.size(), n);
}

// ---------------------------------------------------------------- M06
namespace
{
// star shaped simple polygon around c
Poly starPolygon(Rng& r, int n, double size, P c, bool convexish)
{
    std::vector<double> a;
    for (int i = 0; i < n; ++i) a.push_back((i + (n <= 4 ? 0.25 + 0.5 * r.d01() : 0.1 + 0.8 * r.d01())) * 6.283185307179586 / n);
    Poly p;
    for (double t : a)
    {
        double k = convexish ? 1.0 : r.d(0.25, 1.0);
        p.push_back(P{ref::v2(P{c.x + size * k * std::cos(t), c.y + size * k * std::sin(t)})});
    }
    return p;
}
struct Moments
{
    double area, inertia;
    P centroid;
};
// relative to a nearby vertex, in double: no cancellation
Moments moments(const Poly& p)
{
    Moments m{};
    P o = p[0];
    double a = 0, i = 0;
    P c;
    for (size_t k = 0; k < p.size(); ++k)
    {
        P u = p[k] - o, v = p[(k + 1) % p.size()] - o;
        double x = ref::cross(u, v);
        a += x;
        c = c + (u + v) * x;
        i += x * (ref::dot(u, u) + ref::dot(u, v) + ref::dot(v, v));
    }
    m.area = a / 2;
    P cc = c * (1 / (6 * m.area));
    m.centroid = o + cc;
    m.inertia = std::abs(i / 12 - m.area * ref::dot(cc, cc));
    return m;
}
} // namespace

VF_PROPERTY(M06)
{
    Rng& r = ctx.rng;
    double size = r.logf_(0.1, 20);
    double far = r.chance(0.3) ? 0 : size * r.d(0, 8);
    double ang = r.d(0, 6.28);
    P c{far * std::cos(ang), far * std::sin(ang)};
    int kind = r.i(0, 5);
    Poly p;
    if (kind == 0) p = starPolygon(r, r.i(3, 16), size, c, true);
    else if (kind == 1) p = starPolygon(r, r.i(4, 16), size, c, false);
    else if (kind == 2) p = ref::boxPoly(size, size * r.d(0.05, 1), c, r.d(0, 6.28));
    else if (kind == 3) { p = ref::latticeConvex(r, r.i(3, 12), 8, r.i(-9, 9), r.i(-9, 9)); size = 8; }
    else if (kind == 4)
    { // an L / U profile
        p = Poly{{0, 0}, {3, 0}, {3, 2}, {2, 2}, {2, 1}, {1, 1}, {1, 2}, {0, 2}};
        for (auto& q : p) q = P{ref::v2(P{c.x + q.x * size, c.y + q.y * size})};
        size *= 3;
    }
    else
    { // outer square with an attached square hole
        p = Poly{{-2, -2}, {2, -2}, {2, 2}, {-2, 2}, {-2, -2}, {-1, -1}, {-1, 1}, {1, 1}, {1, -1}, {-1, -1}};
        for (auto& q : p) q = P{ref::v2(P{c.x + q.x * size, c.y + q.y * size})};
        size *= 4;
    }
    Moments m = moments(p);
    if (m.area <= size * size * 1e-3) { ctx.count("skipped_thin"); return; }
    double D = far + 2 * size, fe = 6e-8 * p.size();
    double tolA = fe * D * D * 6, tolC = fe * D * D * D * 12 / m.area + 1e-6 * D,
           tolI = fe * D * D * D * D * 40 + m.area * (2 * D * tolC);
    Hash h;
    for (auto& q : p) h.add(q.x).add(q.y);
    for (int v = 0; v < 4; ++v)
    {
        Poly q = p;
        if (v > 0) std::rotate(q.begin(), q.begin() + r.i(0, int(q.size()) - 1), q.end());
        bool neg = v == 1 || (v == 3 && r.chance(0.5));
        if (neg) std::reverse(q.begin(), q.end());
        Vertices vs = ref::toVertices(q);
        GeometricProperties g{vs};
        VF_CHECK(ctx, !g.isDegenerate, "not-degenerate", "a polygon of area %g is reported degenerate", m.area);
        VF_CHECK(ctx, std::abs(g.area - (neg ? -m.area : m.area)) <= tolA, "signed-area", "area %.9g, expected %.9g (tolerance %g)", g.area, neg ? -m.area : m.area, tolA);
        VF_CHECK(ctx, ref::norm(P{g.centroid} - m.centroid) <= tolC, "centroid", "(%.8g,%.8g) expected (%.8g,%.8g)", g.centroid[0], g.centroid[1], m.centroid.x, m.centroid.y);
        VF_CHECK(ctx, std::abs(g.momentOfArea - m.inertia) <= tolI, "second-moment", "%.8g expected %.8g (tolerance %g)", g.momentOfArea, m.inertia, tolI);
        ctx.max("moment_error_over_tol", std::abs(g.momentOfArea - m.inertia) / tolI);
        Polygon poly{vs.begin(), vs.end()};
        auto gp = poly.properties();
        VF_CHECK(ctx, gp.area > 0 && std::abs(gp.area - m.area) <= tolA, "polygon-area", "polygon area %.9g, expected %.9g", gp.area, m.area);
        VF_CHECK(ctx, ref::norm(P{gp.centroid} - m.centroid) <= tolC && std::abs(gp.momentOfArea - m.inertia) <= tolI, "polygon-properties", "centroid or moment");
        VF_CHECK(ctx, !gp.isDegenerate, "not-degenerate", "polygon of area %g", m.area);
        GeometricProperties again{poly};
        VF_CHECK(ctx, again.area > 0, "positively-oriented", "constructed polygon has signed area %g", again.area);
        // same vertices in the same cyclic order, reversed when given clockwise
        std::vector<Vec2> got(poly.begin(), poly.end());
        std::vector<Vec2> want(vs.begin(), vs.end());
        if (neg) std::reverse(want.begin(), want.end());
        bool found = got.size() == want.size();
        if (found)
        {
            found = false;
            for (size_t s = 0; s < want.size() && !found; ++s)
            {
                found = true;
                for (size_t k = 0; k < want.size() && found; ++k) found = all(got[k] == want[(k + s) % want.size()]);
            }
        }
        VF_CHECK(ctx, found, "same-vertices", "the polygon does not have the given vertices in (positive) order");
        auto view = poly.vertexView();
        size_t cnt = 0;
        for (auto& x : view) { VF_CHECK(ctx, all(x == got[cnt]), "vertex-view", "vertex %zu", cnt); ++cnt; }
        VF_CHECK(ctx, cnt == got.size(), "vertex-view", "%zu vertices seen", cnt);

        // edges
        auto edges = edgesOf(poly);
        std::vector<int> seen(got.size(), 0);
        size_t visited = 0, n = got.size();
        for (auto it = edges.begin(); it != edges.end(); ++it)
        {
            VF_CHECK(ctx, ++visited <= n, "edge-walk", "more edges than vertices");
            size_t i = size_t(it->fromIt() - poly.begin()), j = size_t(it->toIt() - poly.begin());
            VF_CHECK(ctx, i < n && j == (i + 1) % n, "edge-ends", "edge joins %zu and %zu of %zu", i, j, n);
            seen[i]++;
            VF_CHECK(ctx, all(it->from() == got[i]) && all(it->to() == got[j]), "edge-ends", "edge vertices");
            P e = P{it->to()} - P{it->from()}, nn = P{it->normal()};
            VF_CHECK(ctx, std::abs(ref::dot(e, nn)) <= 1e-5 * ref::norm(e) * ref::norm(nn), "edge-normal", "normal is not perpendicular");
            VF_CHECK(ctx, ref::cross(e, nn) < 0, "edge-normal", "normal points inside");
            P un = P{it->normalizedNormal()};
            VF_CHECK(ctx, std::abs(ref::norm(un) - 1) < 1e-5, "edge-normal", "normalised normal has length %g", ref::norm(un));
            VF_CHECK(ctx, all(it->direction() == it->to() - it->from()), "edge-direction", "direction");
            auto nx = edges.next(it), pv = edges.previous(it);
            VF_CHECK(ctx, nx->fromIt() == it->toIt(), "edge-next", "next of edge %zu", i);
            VF_CHECK(ctx, pv->toIt() == it->fromIt(), "edge-previous", "previous of edge %zu", i);
            VF_CHECK(ctx, edges.previous(nx) == it && edges.next(pv) == it, "edge-next-previous", "round trip at edge %zu", i);
            Vec2 q2{r.f(-30, 30), r.f(-30, 30)};
            double side = ref::cross(e, P{q2} - P{it->to()});
            if (std::abs(side) > 1e-3 * (ref::norm(e) + 1) * (D + 40))
                VF_CHECK(ctx, it->isOutside(q2) == (side < 0) && it->isInside(q2) == (side > 0), "edge-side", "side of a point");
            double dd = ref::norm(ref::closestOnSegment(P{it->from()}, P{it->to()}, P{q2}) - P{q2});
            VF_CHECK(ctx, std::abs(std::sqrt(double(it->distanceSquaredToPoint(q2))) - dd) <= 2e-5 * (D + 60), "edge-distance", "%g expected %g", std::sqrt(double(it->distanceSquaredToPoint(q2))), dd);
            double d0 = ref::norm(ref::closestOnSegment(P{it->from()}, P{it->to()}, P{}));
            VF_CHECK(ctx, std::abs(std::sqrt(double(it->distanceSquaredToOrigin())) - d0) <= 2e-5 * (D + 1), "edge-distance-origin", "distance to origin");
        }
        for (size_t i = 0; i < n; ++i) VF_CHECK(ctx, seen[i] == 1, "edge-walk", "edge %zu visited %d times", i, seen[i]);
        ctx.count("polygons");
        ctx.count("edges", double(n));
        if (neg) ctx.count("clockwise_inputs");
    }
    // degenerate shapes: all vertices on a line through lattice points
    {
        int dx = r.i(-3, 3), dy = r.i(-3, 3), n = r.i(3, 6);
        Vertices vs;
        for (int k = 0; k < n; ++k) { int t = r.i(-4, 4); vs.push_back(Vec2{float(1 + t * dx), float(2 + t * dy)}); }
        GeometricProperties g{vs};
        VF_CHECK(ctx, g.isDegenerate, "degenerate", "collinear vertices not reported degenerate");
        Polygon q{vs.begin(), vs.end()};
        VF_CHECK(ctx, q.properties().isDegenerate, "degenerate", "polygon");
        ctx.count("degenerate");
        bool threw = false;
        try { Polygon bad{vs.begin(), vs.begin() + r.i(0, 2)}; } catch (const simu::Exception&) { threw = true; }
        VF_CHECK(ctx, threw, "too-few-vertices", "a polygon with fewer than three vertices was accepted");
    }
    // orientation of three points, box factory
    {
        P a{double(r.i(-9, 9)), double(r.i(-9, 9))}, b{double(r.i(-9, 9)), double(r.i(-9, 9))}, d{double(r.i(-9, 9)), double(r.i(-9, 9))};
        double x = ref::cross(b - a, d - b);
        Orientation o = orientation(ref::v2(a), ref::v2(b), ref::v2(d));
        VF_CHECK(ctx, o == (x > 0 ? Orientation::positive : x < 0 ? Orientation::negative : Orientation::collinear), "orientation", "cross %g", x);
        Vec2 dim{r.f(0.1, 9), r.f(0.1, 9)}, ctr{r.f(-9, 9), r.f(-9, 9)};
        Polygon bx = Polygon::box(dim, ctr);
        auto g = bx.properties();
        VF_CHECK(ctx, std::abs(g.area - dim[0] * dim[1]) < 1e-4 * (1 + dim[0] * dim[1]) + 3e-4, "box-factory", "area %g of a %g x %g box", g.area, dim[0], dim[1]);
        VF_CHECK(ctx, norm(g.centroid - ctr) < 3e-3 / std::min(1.f, dim[0] * dim[1]), "box-factory", "centre");
        BoundingBox bb{bx};
        VF_CHECK(ctx, norm(bb.max() - bb.min() - dim) < 1e-4, "box-factory", "dimensions");
    }
    ctx.state(h);
    ctx.sample("kind %d, %zu vertices, size %.3g at (%.3g,%.3g): area %.6g moment %.6g", kind, p.size(), size, c.x, c.y, m.area, m.inertia);
}

// ---------------------------------------------------------------- M07
VF_PROPERTY(M07)
{
    Rng& r = ctx.rng;
    Hash h;
    bool lattice = r.chance(0.4);
    auto pt = [&](double s) { return lattice ? Vec2{float(r.i(-8, 8)), float(r.i(-8, 8))} : Vec2{r.f(-s, s), r.f(-s, s)}; };
    for (int k = 0; k < 20; ++k)
    {
        Vec2 A = pt(10), B = pt(10), Q = pt(15);
        if (r.chance(0.1)) Q = A;
        if (r.chance(0.1)) Q = A + (B - A) * r.f(-0.5, 1.5);
        bool degenerate = all(A == B);
        LineBarycentric L{A, B, Q};
        P want = ref::closestOnSegment(P{A}, P{B}, P{Q});
        double len = ref::norm(P{B} - P{A});
        double tol = 2e-5 * 20;
        if (!degenerate && len < 0.05) continue;
        VF_CHECK(ctx, ref::norm(P{L.closestPoint} - P{Q}) <= ref::norm(want - P{Q}) + tol, "segment-nearest", "distance %g, nearest %g", ref::norm(P{L.closestPoint} - P{Q}), ref::norm(want - P{Q}));
        VF_CHECK(ctx, ref::norm(ref::closestOnSegment(P{A}, P{B}, P{L.closestPoint}) - P{L.closestPoint}) <= tol, "segment-on", "closest point is off the segment");
        VF_CHECK(ctx, std::abs(L.u + L.v - 1) <= 1e-5 * (1 + std::abs(L.u)), "segment-coordinates-sum", "u+v = %g", L.u + L.v);
        if (L.u >= 0 && L.v >= 0)
        {
            P rep = P{A} * L.u + P{B} * L.v;
            VF_CHECK(ctx, ref::norm(rep - P{L.closestPoint}) <= tol, "segment-coordinates", "uA+vB differs from the closest point");
        }
        if (!degenerate)
        { // projection on the line
            double t = ref::dot(P{Q} - P{A}, P{B} - P{A}) / (len * len);
            VF_CHECK(ctx, std::abs(L.v - t) <= 1e-4 * (1 + std::abs(t)) * (1 + 1 / len), "segment-coordinate-value", "v = %g expected %g", L.v, t);
        }
        ctx.count("segments");
        ctx.count(L.u < 0 ? "segment_beyond_b" : L.v < 0 ? "segment_before_a" : "segment_inside");
    }
    for (int k = 0; k < 30; ++k)
    {
        Vec2 A = pt(10), B = pt(10), C = pt(10), Q = pt(14);
        double ar = ref::cross(P{B} - P{A}, P{C} - P{A}) / 2;
        double la = ref::norm(P{B} - P{A}), lb = ref::norm(P{C} - P{B}), lc = ref::norm(P{A} - P{C});
        double longest = std::max({la, lb, lc}), height = 2 * std::abs(ar) / longest;
        if (std::abs(ar) < 1e-9 || std::min({la, lb, lc}) < 0.1 || height < (lattice ? 1e-9 : 0.1)) { ctx.count("skipped_thin"); continue; }
        int place = r.i(0, 6);
        auto on = [&](Vec2 a, Vec2 b, float t) { return a + (b - a) * t; };
        if (place == 0) Q = A;
        if (place == 1) Q = on(A, B, lattice ? 0.5f : r.f(0, 1));
        if (place == 2) Q = on(B, C, lattice ? 0.5f : r.f(0, 1));
        if (place == 3) Q = on(on(A, B, r.f(0.1, 0.9)), C, r.f(0.1, 0.9));
        if (place == 4)
        { // straight above an edge, close by
            Vec2 m = on(C, A, r.f(0.05, 0.95));
            P n = P{perp(A - C)};
            n = n * (1 / ref::norm(n) * r.d(-0.5, 0.5));
            Q = Vec2{float(m[0] + n.x), float(m[1] + n.y)};
        }
        TriangleBarycentric T{A, B, C, Q};
        Poly tri{P{A}, P{B}, P{C}};
        if (ar < 0) std::reverse(tri.begin(), tri.end());
        bool inside = ref::signedDistance(tri, P{Q}) < 0;
        P want = inside ? P{Q} : ref::closestOnPolygon(tri, P{Q});
        double tol = 2e-5 * 20 * std::max(1.0, longest / height * 0.1);
        double got = ref::norm(P{T.closestPoint} - P{Q}), best = ref::norm(want - P{Q});
        ctx.max("triangle_excess", got - best);
        VF_CHECK(ctx, got <= best + tol, "triangle-nearest", "A(%g,%g) B(%g,%g) C(%g,%g) Q(%g,%g): distance %g, nearest %g", A[0], A[1], B[0], B[1], C[0], C[1], Q[0], Q[1], got, best);
        double off = ref::signedDistance(tri, P{T.closestPoint});
        VF_CHECK(ctx, off <= tol, "triangle-on", "closest point is %g outside the triangle", off);
        double sum = double(T.u) + T.v + T.w;
        VF_CHECK(ctx, std::abs(sum - std::abs(ar)) <= 1e-4 * (200 + std::abs(ar)) * 0.05, "triangle-coordinates-sum", "sum %g area %g", sum, std::abs(ar));
        P rep = (P{A} * T.u + P{B} * T.v + P{C} * T.w) * (1 / sum);
        // the coordinates are those of Q itself
        VF_CHECK(ctx, ref::norm(rep - P{Q}) <= 1e-4 * 20 * (1 + 20 / std::abs(ar)), "triangle-coordinates", "coordinates do not reproduce the point");
        double m = std::min({double(T.u), double(T.v), double(T.w)});
        if (ref::signedDistance(tri, P{Q}) < -1e-3) VF_CHECK(ctx, m >= 0 && all(T.closestPoint == Q), "triangle-inside", "an inside point is not its own nearest point");
        ctx.count("triangles");
        ctx.count(inside ? "triangle_inside" : "triangle_outside");
        if (ar < 0) ctx.count("triangle_clockwise");
        h.add(A[0]).add(A[1]).add(B[0]).add(B[1]).add(C[0]).add(C[1]).add(Q[0]).add(Q[1]);
    }
    // clipping against the line of another edge, farthest vertices
    for (int k = 0; k < 10; ++k)
    {
        Poly pa = r.chance(0.5) ? ref::latticeConvex(r, r.i(3, 8), 8) : ref::roundConvex(r, r.i(3, 8), r.d(0.5, 5), r.d(0.3, 1), P{r.d(-5, 5), r.d(-5, 5)}, r.d(0, 6.28));
        Poly pb = r.chance(0.5) ? ref::latticeConvex(r, r.i(3, 8), 8) : ref::roundConvex(r, r.i(3, 8), r.d(0.5, 5), r.d(0.3, 1), P{r.d(-5, 5), r.d(-5, 5)}, r.d(0, 6.28));
        Vertices va = ref::toVertices(pa), vb = ref::toVertices(pb);
        Polygon A{va.begin(), va.end()}, B{vb.begin(), vb.end()};
        auto ea = edgesOf(A), eb = edgesOf(B);
        auto i = ea.begin(), j = eb.begin();
        for (int s = r.i(0, int(pa.size()) - 1); s > 0; --s) i = ea.next(i);
        for (int s = r.i(0, int(pb.size()) - 1); s > 0; --s) j = eb.next(j);
        P f{i->from()}, d = P{i->to()} - P{i->from()}, of{j->from()}, od = P{j->to()} - P{j->from()};
        double den = ref::cross(d, od);
        Vec2 c = i->clipInside(*j);
        if (std::abs(den) > 0.05 * ref::norm(d) * ref::norm(od))
        {
            double t = std::clamp(ref::cross(of - f, od) / den, 0.0, 1.0);
            P want = f + d * t;
            VF_CHECK(ctx, ref::norm(P{c} - want) <= 2e-3, "clip", "clipped at (%g,%g), expected (%g,%g)", c[0], c[1], want.x, want.y);
            ctx.count(t > 0 && t < 1 ? "clip_crossing" : "clip_clamped");
        }
        else if (dot(i->direction(), j->normal()) == 0.f)
        {
            VF_CHECK(ctx, all(c == i->from()), "clip-parallel", "parallel edges");
            ctx.count("clip_parallel");
        }
        Vec2 dir{r.f(-1, 1), r.f(-1, 1)};
        if (r.chance(0.3)) dir = i->normal();
        if (any(dir != Vec2::filled(0.f)))
        {
            Vec2 v = furthestVertexInDirection(A, dir);
            double best = -1e300;
            bool member = false;
            for (auto& p : pa) best = std::max(best, ref::dot(p, P{dir}));
            for (auto& p : A) member |= all(p == v);
            VF_CHECK(ctx, member, "farthest-member", "the farthest vertex is not a vertex");
            VF_CHECK(ctx, ref::dot(P{v}, P{dir}) >= best - 1e-5 * (ref::norm(P{dir}) + 1e-9) * 20, "farthest", "support %g, best %g", ref::dot(P{v}, P{dir}), best);
            ctx.count("supports");
        }
    }
    ctx.state(h);
    ctx.sample("%s points: 20 segments, 30 triangles, 10 clips", lattice ? "lattice" : "real");
}

// ---------------------------------------------------------------- M08, M09
namespace
{
struct Pair
{
    Poly a, b;
    bool exact;  // small integer coordinates: every product is exact in float
    int kind;
    double gap;
    double scale;
    Poly mink;
};
Pair makePair(Rng& r)
{
    Pair p;
    p.kind = r.i(0, 11);
    p.exact = p.kind <= 4;
    auto shape = [&](P c, double s) {
        switch (r.i(0, 3))
        {
            case 0: return ref::boxPoly(s, s * r.d(0.1, 1), c, r.chance(0.5) ? 0 : r.d(0, 6.28));
            case 1: return ref::roundConvex(r, r.i(3, 12), s / 2, 1, c, r.d(0, 6.28));
            case 2: return ref::roundConvex(r, r.i(3, 7), s / 2, r.d(0.2, 1), c, r.d(0, 6.28));
            default:
            { // regular polygon
                Poly q;
                int n = r.i(3, 12);
                double t = r.chance(0.5) ? 0 : r.d(0, 6.28);
                for (int k = 0; k < n; ++k) q.push_back(P{ref::v2(P{c.x + s / 2 * std::cos(t + 6.283185307 * k / n), c.y + s / 2 * std::sin(t + 6.283185307 * k / n)})});
                return q;
            }
        }
    };
    switch (p.kind)
    {
        case 0: p.a = ref::latticeConvex(r, r.i(3, 12), 6); p.b = ref::latticeConvex(r, r.i(3, 12), 6, r.i(-9, 9), r.i(-9, 9)); break;
        case 1: // same shape, shifted
            p.a = ref::latticeConvex(r, r.i(3, 12), 6);
            p.b = p.a;
            { P d{double(r.i(-12, 12)), double(r.i(-12, 12))}; if (r.chance(0.2)) d = P{}; for (auto& q : p.b) q = q + d; }
            break;
        case 2: // axis aligned boxes
        {
            auto box = [&] { double x = r.i(-9, 9), y = r.i(-9, 9), w = r.i(1, 8), h = r.i(1, 8); return Poly{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}; };
            p.a = box(); p.b = box();
            break;
        }
        case 3: // contained
            p.a = ref::latticeConvex(r, r.i(5, 12), 12); p.b = ref::latticeConvex(r, r.i(3, 6), 3); break;
        case 4: // slid so that they touch exactly
        {
            p.a = ref::latticeConvex(r, r.i(3, 8), 6); p.b = ref::latticeConvex(r, r.i(3, 8), 6);
            Poly m = ref::minkowski(p.a, p.b);
            P d = m[size_t(r.i(0, int(m.size()) - 1))];
            if (r.chance(0.4)) { P e = m[size_t(r.i(0, int(m.size()) - 1))]; P mid = (d + e) * 0.5; if (mid.x == std::floor(mid.x) && mid.y == std::floor(mid.y)) d = mid; }
            for (auto& q : p.b) q = q + d;
            break;
        }
        case 5: case 6: p.a = shape(P{r.d(-3, 3), r.d(-3, 3)}, r.d(0.5, 4)); p.b = shape(P{r.d(-3, 3), r.d(-3, 3)}, r.d(0.5, 4)); break;
        case 7: // deep
        { P c{r.d(-20, 20), r.d(-20, 20)}; p.a = shape(c, r.d(0.5, 4)); p.b = shape(r.chance(0.3) ? c : P{c.x + r.d(-0.2, 0.2), c.y + r.d(-0.2, 0.2)}, r.d(0.5, 4)); break; }
        case 8: // identical
        { p.a = shape(P{r.d(-20, 20), r.d(-20, 20)}, r.d(0.5, 4)); p.b = p.a; break; }
        case 9: case 10: // close to touching along the separating direction, typical of a resting contact
        {
            p.a = shape(P{r.d(-20, 20), r.d(-20, 20)}, r.d(0.5, 4)); p.b = shape(P{r.d(-20, 20), r.d(-20, 20)}, r.d(0.5, 4));
            Poly m = ref::minkowski(p.a, p.b);
            P c = ref::closestOnPolygon(m, P{});
            double n = ref::norm(c), eps = r.logf_(1e-4, 0.3) * (r.chance(0.5) ? 1 : -1);
            if (n > 0)
            {
                P d = c + c * (eps / n);
                for (auto& q : p.b) q = P{ref::v2(q + d)};
            }
            break;
        }
        default: // resting boxes with parallel faces and common heights
        {
            double w = r.d(0.5, 3), h = r.d(0.5, 3), w2 = r.d(0.5, 10), h2 = r.d(0.5, 3), y = r.d(-20, 20), x = r.d(-20, 20);
            double t = r.chance(0.6) ? 0 : r.d(0, 6.28);
            double dy = (h + h2) / 2 - r.pick(std::vector<double>{0.0, 0.005, 0.01, 0.05, -0.01, 0.3});
            double dx = r.chance(0.4) ? 0 : r.d(-3, 3);
            p.a = ref::boxPoly(w, h, P{x, y}, t);
            p.b = ref::boxPoly(w2, h2, P{x + std::cos(t) * dx - std::sin(t) * dy, y + std::sin(t) * dx + std::cos(t) * dy}, t);
        }
    }
    if (!p.exact)
    {
        // rounding to float may create tiny concavities; they do not matter at the tolerance used
        for (auto* q : {&p.a, &p.b}) for (auto& v : *q) v = P{ref::v2(v)};
    }
    if (r.chance(0.5)) std::swap(p.a, p.b);
    p.mink = ref::minkowski(p.a, p.b);
    p.gap = ref::signedDistance(p.mink, P{});
    p.scale = std::max(ref::extent(p.a), ref::extent(p.b)) + 1;
    return p;
}
struct Variant
{
    Poly a, b;
    bool swapped;
    Vec2 dir;
};
std::vector<Variant> variantsOf(Rng& r, const Pair& p)
{
    std::vector<Variant> v;
    for (int k = 0; k < 8; ++k)
    {
        Variant x{p.a, p.b, (k & 1) != 0, Vec2::i()};
        if (k >= 2)
        {
            std::rotate(x.a.begin(), x.a.begin() + r.i(0, int(x.a.size()) - 1), x.a.end());
            std::rotate(x.b.begin(), x.b.begin() + r.i(0, int(x.b.size()) - 1), x.b.end());
            if (r.chance(0.5)) std::reverse(x.a.begin(), x.a.end());
            if (r.chance(0.5)) std::reverse(x.b.begin(), x.b.end());
        }
        if (k >= 4)
            switch (r.i(0, 3))
            {
                case 0: x.dir = Vec2{r.f(-1, 1), r.f(-1, 1)}; break;
                case 1: x.dir = Vec2{}; break;
                case 2: x.dir = r.pick(std::vector<Vec2>{Vec2{0, 1}, Vec2{0, -1}, Vec2{-1, 0}, Vec2{1, 1}}); break;
                default:
                { // from one shape to the other, as callers do
                    P d = p.b[0] - p.a[0];
                    x.dir = ref::v2(d);
                }
            }
        if (x.swapped) std::swap(x.a, x.b);
        v.push_back(x);
    }
    return v;
}
std::string show(const Poly& p)
{
    std::string s = "{";
    char b[64];
    for (auto& q : p) { snprintf(b, sizeof b, "{%.9g,%.9g},", q.x, q.y); s += b; }
    s.back() = '}';
    return s;
}
} // namespace

VF_PROPERTY(M08)
{
    Rng& r = ctx.rng;
    Pair p = makePair(r);
    double tol = p.exact ? 0 : 2e-5 * p.scale;
    bool want = p.gap <= 0;
    bool ambiguous = !p.exact && std::abs(p.gap) <= tol;
    ctx.count(p.gap == 0 ? "touching" : p.gap < 0 ? "overlapping" : "apart");
    if (ambiguous) ctx.count("ambiguous");
    if (p.gap < 0 && -p.gap > 0.2) ctx.count("deep");
    for (auto& v : variantsOf(r, p))
    {
        Vertices va = ref::toVertices(v.a), vb = ref::toVertices(v.b);
        Polygon A{va.begin(), va.end()}, B{vb.begin(), vb.end()};
        bool got;
        try
        {
            Gjk<Polygon> g{A, B, v.dir};
            got = g.areColliding();
        }
        catch (const std::exception& e)
        {
            ctx.fail("collision-throws", "A=%s B=%s dir=(%g,%g): %s", show(v.a).c_str(), show(v.b).c_str(), v.dir[0], v.dir[1], e.what());
        }
        ctx.eval();
        if (!ambiguous && got != want)
            ctx.fail(want ? "collision-missed" : "collision-invented", "kind %d gap %g: answered %d for A=%s B=%s dir=(%g,%g)", p.kind, p.gap, int(got), show(v.a).c_str(), show(v.b).c_str(), v.dir[0], v.dir[1]);
        ctx.count("queries");
    }
    Hash h;
    for (auto* q : {&p.a, &p.b}) for (auto& v : *q) h.add(v.x).add(v.y);
    ctx.state(h);
    ctx.sample("kind %d: %zu and %zu vertices, gap %.6g", p.kind, p.a.size(), p.b.size(), p.gap);
}

VF_PROPERTY(M09)
{
    Rng& r = ctx.rng;
    Pair p = makePair(r);
    double tol = 1e-4 * p.scale;
    for (auto& v : variantsOf(r, p))
    {
        Vertices va = ref::toVertices(v.a), vb = ref::toVertices(v.b);
        Polygon A{va.begin(), va.end()}, B{vb.begin(), vb.end()};
        auto where = [&] {
            char b[100];
            snprintf(b, sizeof b, " kind %d gap %g dir=(%.9g,%.9g)", p.kind, p.gap, v.dir[0], v.dir[1]);
            return "A=" + show(v.a) + " B=" + show(v.b) + b;
        };
        Vec2 sep, pen;
        bool col;
        try
        {
            Gjk<Polygon> g{A, B, v.dir};
            col = g.areColliding();
            bool penFirst = r.chance(0.5);
            if (penFirst) pen = g.penetration();
            sep = g.separation();
            if (!penFirst) pen = g.penetration();
        }
        catch (const std::exception& e)
        {
            ctx.fail("query-throws", "%s: %s", where().c_str(), e.what());
        }
        ctx.eval();
        if (col) VF_CHECK(ctx, all(sep == Vec2{}), "separation-of-colliding", "colliding shapes have separation (%g,%g)", sep[0], sep[1]);
        else VF_CHECK(ctx, all(pen == Vec2{}), "penetration-of-disjoint", "disjoint shapes have penetration (%g,%g)", pen[0], pen[1]);
        auto moved = [&](P d) {
            Poly q = v.a;
            for (auto& x : q) x = x + d;
            return ref::gap(q, v.b);
        };
        if (p.gap > 0)
        {
            if (col) { VF_CHECK(ctx, p.gap < 2e-5 * p.scale, "decision", "%s", where().c_str()); continue; }
            double l = ref::norm(P{sep});
            ctx.max("separation_error", std::abs(l - p.gap) / p.scale);
            VF_CHECK(ctx, std::abs(l - p.gap) <= tol, "separation-minimal", "length %.8g, distance %.8g: %s", l, p.gap, where().c_str());
            double g = moved(P{sep});
            VF_CHECK(ctx, std::abs(g) <= tol, "separation-touches", "after moving by it the gap is %g: %s", g, where().c_str());
            ctx.count("separations");
        }
        else
        {
            if (!col) { VF_CHECK(ctx, p.gap > -2e-5 * p.scale, "decision", "%s", where().c_str()); continue; }
            double l = ref::norm(P{pen});
            ctx.max("penetration_error", std::abs(l + p.gap) / p.scale);
            VF_CHECK(ctx, std::abs(l + p.gap) <= tol, "penetration-minimal", "length %.8g, depth %.8g: %s", l, -p.gap, where().c_str());
            double g = moved(P{} - P{pen});
            VF_CHECK(ctx, std::abs(g) <= tol, "penetration-touches", "after moving by it the gap is %g: %s", g, where().c_str());
            ctx.count("penetrations");
        }
    }
    Hash h;
    for (auto* q : {&p.a, &p.b}) for (auto& v : *q) h.add(v.x).add(v.y);
    ctx.state(h);
    ctx.sample("kind %d: %zu and %zu vertices, gap %.6g", p.kind, p.a.size(), p.b.size(), p.gap);
}
