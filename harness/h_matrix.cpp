// M01, M02, M03: matrices against plain double-precision index arithmetic.
#include "common.hpp"
#include "Simu/math/Matrix.hpp"
#include "Simu/utility/Algo.hpp"
#include <algorithm>
#include <optional>
#include <type_traits>

using namespace simu;
using vf::Ctx;
using vf::Rng;

namespace
{
template <class T>
double epsOf()
{
    if constexpr (std::is_same_v<T, double>) return 2.3e-16;
    else if constexpr (std::is_same_v<T, float>) return 1.2e-7;
    else return 0;
}

template <class T>
T entry(Rng& r, int style)
{
    if constexpr (std::is_integral_v<T>)
        return T(r.i(-1000, 1000));
    else
        switch (style)
        {
            case 0: return T(r.i(-8, 8));
            case 1: return T(r.d(-1, 1));
            case 2: return T((r.chance(0.5) ? 1 : -1) * r.logf_(1e-6, 1e6));
            case 3: return r.chance(0.5) ? T(0) : T(r.d(-100, 100));
            default: return T(r.d(-1000, 1000));
        }
}

template <class T, int m, int n>
struct Ref
{
    T a[m][n];
};

template <class T, int m, int n>
Ref<T, m, n> randRef(Rng& r, int style)
{
    Ref<T, m, n> x;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) x.a[i][j] = entry<T>(r, style);
    return x;
}

// built through operator()(row, col) only
template <class T, int m, int n>
Matrix<T, m, n> toMat(const Ref<T, m, n>& x)
{
    Matrix<T, m, n> r;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) r(i, j) = x.a[i][j];
    return r;
}

template <class T>
bool close(T got, double want, double scale, double k = 4)
{
    if constexpr (std::is_integral_v<T>)
        return double(got) == want;
    else
        return std::abs(double(got) - want) <= k * epsOf<T>() * scale + 1e-37;
}

#define EL(got, want, scale, what)                                             \
    VF_CHECK(ctx, close((got), (want), (scale)), what, "%s<%s %dx%d> (%d,%d): got %.9g want %.9g", what, tn<T>(), m, n, i, j, double(got), double(want))

template <class T> const char* tn()
{
    return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "int";
}

template <class T, int m, int n, int p>
void product(Ctx& ctx, int style)
{
    auto A = randRef<T, m, n>(ctx.rng, style);
    auto B = randRef<T, n, p>(ctx.rng, style);
    auto C = toMat(A) * toMat(B);
    static_assert(std::is_same_v<decltype(C), Matrix<T, m, p>>);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < p; ++j)
        {
            double s = 0, sc = 0;
            for (int k = 0; k < n; ++k)
            {
                s += double(A.a[i][k]) * double(B.a[k][j]);
                sc += std::abs(double(A.a[i][k]) * double(B.a[k][j]));
            }
            VF_CHECK(ctx, close(C(i, j), s, sc, 2 * n + 2), "product", "product<%s> %dx%d*%dx%d (%d,%d): got %.9g want %.9g", tn<T>(), m, n, n, p, i, j, double(C(i, j)), s);
        }
    ctx.count("products");
}

template <class T, int m, int n>
void shape(Ctx& ctx, int style)
{
    Rng& r = ctx.rng;
    auto a = randRef<T, m, n>(r, style);
    auto b = randRef<T, m, n>(r, style);
    const auto A = toMat(a);
    const auto B = toMat(b);
    T s = entry<T>(r, style);
    if (s == T(0)) s = T(3);

    static_assert(Matrix<T, m, n>::size() == m * n);
    auto sum = A + B, dif = A - B, neg = -A, pos = +A, sl = s * A, sr = A * s, q = A / s;
    auto pe = A; pe += B;
    auto me = A; me -= B;
    auto te = A; te *= s;
    auto de = A; de /= s;
    auto al = A; al += al;
    auto zero = A; zero -= zero;
    auto t = transpose(A);
    auto rows = A.asRows();
    auto cols = A.asCols();
    auto fr = Matrix<T, m, n>::fromRows(rows);
    auto fc = Matrix<T, m, n>::fromCols(cols);
    auto fil = Matrix<T, m, n>::filled(s);
    Matrix<double, m, n> conv{A};
    auto mn = std::min(A, B), mx = std::max(A, B), ab = std::abs(A);
    auto lo = mn, hi = mx;
    auto C = toMat(randRef<T, m, n>(r, style));
    auto cl = simu::clamp(C, lo, hi);
    auto eq = (A == B), ne = (A != B), lt = (A < B), le = (A <= B), gt = (A > B), ge = (A >= B);
    auto an = lt && (C < B), orr = lt || (C < B), no = !lt;
    bool wantAllLt = true, wantAnyLt = false;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
        {
            double x = double(a.a[i][j]), y = double(b.a[i][j]), c = double(C(i, j));
            EL(A(i, j), x, 0, "element");
            VF_CHECK(ctx, A[i * n + j] == a.a[i][j], "element", "row-major [] differs from () at %d,%d", i, j);
            EL(sum(i, j), x + y, std::abs(x) + std::abs(y), "sum");
            EL(pe(i, j), x + y, std::abs(x) + std::abs(y), "sum-assign");
            EL(dif(i, j), x - y, std::abs(x) + std::abs(y), "difference");
            EL(me(i, j), x - y, std::abs(x) + std::abs(y), "difference-assign");
            EL(neg(i, j), -x, 0, "negation");
            EL(pos(i, j), x, 0, "identity-sign");
            EL(sl(i, j), double(s) * x, std::abs(double(s) * x), "scalar-left");
            EL(sr(i, j), double(s) * x, std::abs(double(s) * x), "scalar-right");
            EL(te(i, j), double(s) * x, std::abs(double(s) * x), "scalar-assign");
            double dv = std::is_integral_v<T> ? double(int64_t(x) / int64_t(s)) : x / double(s);
            EL(q(i, j), dv, std::abs(dv), "scalar-division");
            EL(de(i, j), dv, std::abs(dv), "scalar-division-assign");
            EL(al(i, j), 2 * x, 0, "aliased-sum-assign");
            EL(zero(i, j), 0.0, 0, "aliased-difference-assign");
            EL(t(j, i), x, 0, "transpose");
            EL(rows[i][j], x, 0, "rows");
            EL(cols[j][i], x, 0, "cols");
            EL(fr(i, j), x, 0, "from-rows");
            EL(fc(i, j), x, 0, "from-cols");
            EL(fil(i, j), double(s), 0, "filled");
            VF_CHECK(ctx, conv(i, j) == x, "conversion", "conversion (%d,%d)", i, j);
            EL(mn(i, j), std::min(x, y), 0, "min");
            EL(mx(i, j), std::max(x, y), 0, "max");
            EL(ab(i, j), std::abs(x), 0, "abs");
            EL(cl(i, j), std::min(std::max(c, std::min(x, y)), std::max(x, y)), 0, "clamp");
            VF_CHECK(ctx, eq(i, j) == (x == y) && ne(i, j) == (x != y) && lt(i, j) == (x < y) && le(i, j) == (x <= y) && gt(i, j) == (x > y) && ge(i, j) == (x >= y),
                     "comparison", "comparison of %.9g and %.9g", x, y);
            VF_CHECK(ctx, an(i, j) == ((x < y) && (c < y)) && orr(i, j) == ((x < y) || (c < y)) && no(i, j) == !(x < y), "logic", "component logic at (%d,%d)", i, j);
            wantAllLt = wantAllLt && x < y;
            wantAnyLt = wantAnyLt || x < y;
        }
    VF_CHECK(ctx, all(lt) == wantAllLt, "all", "all() of a component comparison");
    VF_CHECK(ctx, any(lt) == wantAnyLt, "any", "any() of a component comparison");
    {
        // one differing component must be seen wherever it is
        auto D = A;
        int  k = r.i(0, m * n - 1);
        D[k] = T(D[k] + T(1));
        if (D[k] != A[k])
        {
            VF_CHECK(ctx, !all(D == A) && any(D != A) && all(A == A) && !any(A != A), "all", "difference at component %d is missed", k);
            VF_CHECK(ctx, (m * n == 1) || any(D == A), "any", "any() misses equal components");
        }
    }
    if constexpr (m == n)
    {
        auto I = Matrix<T, m, m>::identity();
        Vector<T, m> d;
        for (int i = 0; i < m; ++i) d[i] = a.a[i][0];
        auto D = Matrix<T, m, m>::diagonal(d);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
            {
                EL(I(i, j), (i == j ? 1.0 : 0.0), 0, "identity");
                EL(D(i, j), (i == j ? double(a.a[i][0]) : 0.0), 0, "diagonal");
            }
        auto sq = A;
        auto P1 = A * A;
        sq = sq * sq;
        VF_CHECK(ctx, all(P1 == sq), "aliased-product", "x = x*x differs from a*a");
    }
    int it = 0;
    for (T v : A) { VF_CHECK(ctx, v == A[it], "iteration", "iteration order"); ++it; }
    VF_CHECK(ctx, it == m * n, "iteration", "iteration visits %d of %d", it, m * n);
    ctx.count("shapes");
    vf::Hash h;
    h.add(uint64_t(m * 8 + n)).add(uint64_t(style));
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) h.add(double(a.a[i][j]));
    ctx.state(h);
}

template <class T, int dim>
void vectors(Ctx& ctx, int style)
{
    Rng& r = ctx.rng;
    Vector<T, dim> a, b;
    for (int i = 0; i < dim; ++i) { a[i] = entry<T>(r, style); b[i] = entry<T>(r, style); }
    double dt = 0, sc = 0, n2 = 0, b2 = 0;
    for (int i = 0; i < dim; ++i)
    {
        dt += double(a[i]) * double(b[i]);
        sc += std::abs(double(a[i]) * double(b[i]));
        n2 += double(a[i]) * double(a[i]);
        b2 += double(b[i]) * double(b[i]);
    }
    VF_CHECK(ctx, close(dot(a, b), dt, sc, 2 * dim + 2), "dot", "dot<%s,%d> got %.9g want %.9g", tn<T>(), dim, double(dot(a, b)), dt);
    VF_CHECK(ctx, close(normSquared(a), n2, n2, 2 * dim + 2), "norm-squared", "normSquared<%d>", dim);
    auto em = elementWiseMul(a, b);
    for (int i = 0; i < dim; ++i) VF_CHECK(ctx, close(em[i], double(a[i]) * double(b[i]), std::abs(double(a[i]) * double(b[i]))), "element-product", "element-wise product");
    if constexpr (!std::is_integral_v<T>)
    {
        VF_CHECK(ctx, close(norm(a), std::sqrt(n2), std::sqrt(n2), 2 * dim + 4), "norm", "norm<%d>", dim);
        if (n2 > 0)
        {
            auto u = normalized(a);
            for (int i = 0; i < dim; ++i)
                VF_CHECK(ctx, close(u[i], double(a[i]) / std::sqrt(n2), 1.0, 2 * dim + 4), "normalized", "normalized component %d", i);
        }
        if (b2 > 0)
        {
            auto p = projection(a, b);
            for (int i = 0; i < dim; ++i)
                VF_CHECK(ctx, close(p[i], double(b[i]) * dt / b2, std::abs(double(b[i])) * sc / b2, 6 * dim + 6), "projection", "projection component %d got %.9g want %.9g", i, double(p[i]), double(b[i]) * dt / b2);
        }
    }
    if constexpr (dim == 2)
    {
        double c = double(a[0]) * double(b[1]) - double(a[1]) * double(b[0]);
        double s2 = std::abs(double(a[0]) * double(b[1])) + std::abs(double(a[1]) * double(b[0]));
        VF_CHECK(ctx, close(cross(a, b), c, s2, 6), "cross2", "cross got %.9g want %.9g", double(cross(a, b)), c);
        auto l = perp(a), rr = perp(a, true);
        VF_CHECK(ctx, l[0] == -a[1] && l[1] == a[0] && rr[0] == a[1] && rr[1] == -a[0], "perp", "perp of (%g,%g)", double(a[0]), double(a[1]));
    }
    if constexpr (dim == 3)
    {
        auto c = cross(a, b);
        for (int i = 0; i < 3; ++i)
        {
            int    j = (i + 1) % 3, k = (i + 2) % 3;
            double w = double(a[j]) * double(b[k]) - double(a[k]) * double(b[j]);
            double s2 = std::abs(double(a[j]) * double(b[k])) + std::abs(double(a[k]) * double(b[j]));
            VF_CHECK(ctx, close(c[i], w, s2, 6), "cross3", "cross3 component %d got %.9g want %.9g", i, double(c[i]), w);
        }
    }
    ctx.count("vectors");
}

template <class T>
void allShapes(Ctx& ctx, int style)
{
    shape<T, 1, 1>(ctx, style); shape<T, 2, 2>(ctx, style); shape<T, 3, 3>(ctx, style); shape<T, 4, 4>(ctx, style);
    shape<T, 1, 6>(ctx, style); shape<T, 2, 6>(ctx, style); shape<T, 3, 6>(ctx, style); shape<T, 2, 3>(ctx, style);
    shape<T, 3, 2>(ctx, style); shape<T, 6, 1>(ctx, style); shape<T, 2, 1>(ctx, style); shape<T, 1, 3>(ctx, style);
    shape<T, 5, 4>(ctx, style); shape<T, 6, 6>(ctx, style);
    product<T, 1, 1, 1>(ctx, style); product<T, 2, 2, 2>(ctx, style); product<T, 3, 3, 1>(ctx, style); product<T, 2, 6, 6>(ctx, style);
    product<T, 1, 6, 1>(ctx, style); product<T, 6, 1, 6>(ctx, style); product<T, 2, 3, 4>(ctx, style); product<T, 4, 4, 4>(ctx, style);
    product<T, 3, 6, 3>(ctx, style); product<T, 6, 3, 1>(ctx, style);
    vectors<T, 1>(ctx, style); vectors<T, 2>(ctx, style); vectors<T, 3>(ctx, style); vectors<T, 4>(ctx, style); vectors<T, 6>(ctx, style);
}
} // namespace

VF_PROPERTY(M01)
{
    int style = ctx.rng.i(0, 4);
    allShapes<float>(ctx, style);
    allShapes<double>(ctx, style);
    allShapes<Int32>(ctx, style);

    // literals and unit vectors
    auto i4 = Vec4::i(), j4 = Vec4::j(), k4 = Vec4::k(), w4 = Vec4::w();
    for (int c = 0; c < 4; ++c)
        VF_CHECK(ctx, i4[c] == (c == 0) && j4[c] == (c == 1) && k4[c] == (c == 2) && w4[c] == (c == 3), "unit-vectors", "unit vector component %d", c);
    Matrix<float, 2, 3> lit{1, 2, 3, 4, 5, 6};
    VF_CHECK(ctx, lit(0, 2) == 3 && lit(1, 0) == 4, "literal", "literal order");
    // mixed types
    Vec2i vi{ctx.rng.i(-50, 50), ctx.rng.i(-50, 50)};
    Vec2  vf_{ctx.rng.f(-5, 5), ctx.rng.f(-5, 5)};
    auto  mixed = vi + vf_;
    static_assert(std::is_same_v<decltype(mixed), Vec2>);
    VF_CHECK(ctx, std::abs(mixed[0] - (float(vi[0]) + vf_[0])) < 1e-4 && std::abs(mixed[1] - (float(vi[1]) + vf_[1])) < 1e-4, "mixed-types", "int + float vector");
    auto md = vf_ - vi;
    VF_CHECK(ctx, std::abs(md[0] - (vf_[0] - float(vi[0]))) < 1e-4 && std::abs(md[1] - (vf_[1] - float(vi[1]))) < 1e-4, "mixed-types", "float - int vector");
    VF_CHECK(ctx, std::abs(dot(vi, vf_) - (vi[0] * vf_[0] + vi[1] * vf_[1])) < 1e-2, "mixed-types", "int . float");
    float x = ctx.rng.f(-10, 10), lo = ctx.rng.f(-10, 0), hi = ctx.rng.f(0, 10);
    VF_CHECK(ctx, simu::clamp(x, lo, hi) == std::min(std::max(x, lo), hi) && simu::squared(x) == x * x, "scalar-clamp", "clamp(%g,%g,%g)", x, lo, hi);
    ctx.sample("style %d, all shapes of float/double/int", style);
}

namespace
{
// dense double solver with full pivoting: reference for moderately conditioned systems
template <int n>
struct Dense
{
    double a[n][n];
    double cond = 0; // infinity-norm condition number
    double inv[n][n];
    bool   invertible = false;
    double norm = 0;

    void invert()
    {
        double m[n][2 * n];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) { m[i][j] = a[i][j]; m[i][n + j] = i == j; }
        invertible = true;
        for (int c = 0; c < n; ++c)
        {
            int p = c;
            for (int i = c + 1; i < n; ++i) if (std::abs(m[i][c]) > std::abs(m[p][c])) p = i;
            if (std::abs(m[p][c]) < 1e-300) { invertible = false; return; }
            for (int j = 0; j < 2 * n; ++j) std::swap(m[c][j], m[p][j]);
            double d = m[c][c];
            for (int j = 0; j < 2 * n; ++j) m[c][j] /= d;
            for (int i = 0; i < n; ++i)
                if (i != c)
                {
                    double f = m[i][c];
                    for (int j = 0; j < 2 * n; ++j) m[i][j] -= f * m[c][j];
                }
        }
        double ni = 0;
        norm = 0;
        for (int i = 0; i < n; ++i)
        {
            double s = 0, t = 0;
            for (int j = 0; j < n; ++j) { inv[i][j] = m[i][n + j]; s += std::abs(inv[i][j]); t += std::abs(a[i][j]); }
            ni = std::max(ni, s);
            norm = std::max(norm, t);
        }
        cond = ni * norm;
    }
};

template <class T, int n>
void linear(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Matrix<T, n, n> A;
    Dense<n>        D;
    int style = r.i(0, 6);
    float scale = r.chance(0.3) ? r.logf_(1e-3, 1e3) : 1.f;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            double v;
            switch (style)
            {
                case 0: v = r.i(-5, 5); break;
                case 1: v = r.d(-1, 1) + (i == j ? 3 : 0); break;
                case 2: v = ((i + 1) % n == j) ? r.d(1, 3) : (r.chance(0.3) ? r.d(-0.3, 0.3) : 0); break; // shifted: zero diagonal
                case 3: v = (i + j == n - 1) ? r.d(1, 4) : 0; break;                                        // anti-diagonal
                case 4: v = j >= i ? r.d(0.5, 2) : 0; break;
                case 5: v = j <= i ? r.d(-2, -0.5) : 0; break;
                default: v = r.d(-10, 10);
            }
            A(i, j) = T(v * scale);
        }
    if (style == 6 && r.chance(0.5))
        A = transpose(A) * A; // SPD like the effective mass matrices
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) D.a[i][j] = double(A(i, j));
    D.invert();
    double tol = epsOf<T>();

    Solver<T, n> S{A};
    if (!S.isValid())
    {
        VF_CHECK(ctx, !D.invertible || D.cond * tol > 0.01, "valid-reported-invalid", "size %d condition %.3g reported invalid", n, D.cond);
        ctx.count("reported_invalid");
        bool threw = false;
        try { S.solve(Vector<T, n>::filled(T(1))); } catch (const simu::Exception&) { threw = true; }
        VF_CHECK(ctx, threw, "invalid-solve-accepted", "an invalid solver accepted a right-hand side");
        return;
    }
    if (!D.invertible || D.cond > 1e4) { ctx.count("ill_conditioned_skipped"); return; }

    Vector<T, n> b;
    double bn = 0;
    for (int i = 0; i < n; ++i) { b[i] = T(r.d(-10, 10)); bn = std::max(bn, std::abs(double(b[i]))); }
    Vector<T, n> x = solve(A, b);
    Vector<T, n> y = S.solve(b);
    Vector<T, n> x2 = Solver{A}.solve(b);
    double xn = 0;
    double want[n];
    for (int i = 0; i < n; ++i)
    {
        want[i] = 0;
        for (int j = 0; j < n; ++j) want[i] += D.inv[i][j] * double(b[j]);
        xn = std::max(xn, std::abs(want[i]));
    }
    double allow = 60 * n * tol * D.cond * D.cond * xn / std::max(1.0, D.cond * 0.02) + 1e-30;
    for (int i = 0; i < n; ++i)
    {
        ctx.max("solve_error_over_eps_cond", std::abs(double(x[i]) - want[i]) / (tol * D.cond * xn + 1e-30));
        VF_CHECK(ctx, std::abs(double(x[i]) - want[i]) <= allow, "solve", "size %d component %d: got %.9g want %.9g (condition %.3g)", n, i, double(x[i]), want[i], D.cond);
        VF_CHECK(ctx, x[i] == y[i] && x[i] == x2[i], "solver-agrees", "reusable and one-shot solver differ in component %d", i);
    }
    auto O = S.original();
    auto V = invert(A);
    double vn = D.cond / D.norm;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            VF_CHECK(ctx, std::abs(double(O(i, j)) - D.a[i][j]) <= 40 * n * tol * D.norm * std::max(1.0, D.cond * 0.05), "original", "original matrix (%d,%d): %.9g vs %.9g", i, j, double(O(i, j)), D.a[i][j]);
            VF_CHECK(ctx, std::abs(double(V(i, j)) - D.inv[i][j]) <= 60 * n * tol * D.cond * vn * std::max(1.0, D.cond * 0.05), "invert", "size %d inverse (%d,%d): got %.9g want %.9g condition %.3g", n, i, j, double(V(i, j)), D.inv[i][j], D.cond);
        }
    ctx.count("systems");
    ctx.state(vf::Hash{}.add(uint64_t(n)).add(uint64_t(style)).add(D.cond).add(want[0]));
}

} // namespace

VF_PROPERTY(M02)
{
    linear<float, 1>(ctx); linear<float, 2>(ctx); linear<float, 3>(ctx); linear<float, 4>(ctx); linear<float, 6>(ctx);
    linear<double, 2>(ctx); linear<double, 3>(ctx); linear<double, 5>(ctx);
    // exactly singular: zero row, column, or matrix
    int  k = ctx.rng.i(0, 2);
    Mat3 Z{1, 2, 3, 4, 5, 7, 2, 1, 8};
    for (int c = 0; c < 3; ++c) Z(c, k) = 0;
    Solver<float, 3> S{Z};
    VF_CHECK(ctx, !S.isValid(), "singular-accepted", "a matrix with a zero column is reported valid");
    Mat2 Y{1.f * ctx.rng.i(1, 5), 2, 0, 0};
    VF_CHECK(ctx, !(Solver<float, 2>{Y}.isValid()), "singular-accepted", "a matrix with a zero row is reported valid");
    ctx.sample("sizes 1..6 float/double, random and permuted sparsity patterns");
}

namespace
{
// complementarity certificate: x >= 0, A x - b >= 0, x . (A x - b) = 0
template <int n>
void certify(Ctx& ctx, const double A[n][n], const double b[n], const double x[n], double tolX, double tolW, const char* sig, const char* what)
{
    for (int i = 0; i < n; ++i)
    {
        double w = -b[i];
        for (int j = 0; j < n; ++j) w += A[i][j] * x[j];
        VF_CHECK(ctx, x[i] >= -tolX, sig, "%s: x[%d]=%.9g is negative", what, i, x[i]);
        VF_CHECK(ctx, w >= -tolW, sig, "%s: (Ax-b)[%d]=%.9g is negative (tol %.3g, x=%.9g)", what, i, w, tolW, x[i]);
        VF_CHECK(ctx, x[i] <= tolX || w <= tolW, sig, "%s: component %d has x=%.9g and residual %.9g (tol %.3g)", what, i, x[i], w, tolW);
    }
}

template <class T, int n>
void spd(Rng& r, Matrix<T, n, n>& A, double D[n][n], double& kmax)
{
    // J M J^T like constraints produce, plus a diagonal part bounding the condition number
    double J[n][6], M[6];
    for (auto& m : M) m = r.chance(0.1) ? 0 : r.logf_(0.05, 20);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < 6; ++j) J[i][j] = r.d(-1.5, 1.5);
    if (n == 2 && r.chance(0.5)) // two contact points of one face
        for (int j = 0; j < 6; ++j)
            if (j % 3 != 2) J[1][j] = J[0][j];
    kmax = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            double s = 0;
            for (int k = 0; k < 6; ++k) s += J[i][k] * M[k] * J[j][k];
            D[i][j] = s;
            kmax = std::max(kmax, std::abs(s));
        }
    for (int i = 0; i < n; ++i) D[i][i] += 0.02 * kmax + 1e-3;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) { A(i, j) = T(D[i][j]); D[i][j] = double(A(i, j)); }
}

template <class T>
void lcp2(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Matrix<T, 2, 2> A;
    double D[2][2], km;
    spd<T, 2>(r, A, D, km);
    Vector<T, 2> b;
    int    mode = r.i(0, 4);
    double bs = r.logf_(1e-3, 1e3);
    if (mode == 0) b = Vector<T, 2>{T(r.d(-1, 1) * bs), T(r.d(-1, 1) * bs)};
    else if (mode == 1) b = Vector<T, 2>{T(r.d(0, 1) * bs), T(-r.d(0, 1) * bs)};
    else if (mode == 2) b = Vector<T, 2>{T(-r.d(0, 1) * bs), T(r.d(0, 1) * bs)};
    else if (mode == 3) b = Vector<T, 2>{T(-r.d(0, 1) * bs), T(-r.d(0, 1) * bs)};
    else b = Vector<T, 2>{T(r.i(-1, 1)), T(r.i(-1, 1))};
    Vector<T, 2> x = solveLcp(A, b);
    LcpSolver<T> S{A};
    Vector<T, 2> y = S.solve(b);
    VF_CHECK(ctx, S.isValid(), "lcp-valid", "a positive definite matrix is reported invalid");
    VF_CHECK(ctx, all(x == y), "lcp-agrees", "one-shot and reusable LCP solvers differ");
    VF_CHECK(ctx, all(S.original() == A), "lcp-original", "original matrix is not kept");
    double bb[2] = {double(b[0]), double(b[1])}, xx[2] = {double(x[0]), double(x[1])};
    double bm = std::max(std::abs(bb[0]), std::abs(bb[1]));
    double cond = km / std::min(D[0][0], D[1][1]) * 60;
    double tolW = 30 * epsOf<T>() * cond * bm + 1e-12;
    certify<2>(ctx, D, bb, xx, tolW / km, tolW, "lcp", "2x2 complementarity");
    int cls = (xx[0] > 0) * 2 + (xx[1] > 0);
    static const char* names[4] = {"lcp_none_active", "lcp_second_active", "lcp_first_active", "lcp_both_active"};
    ctx.count(names[cls]);
    ctx.state(vf::Hash{}.add(uint64_t(cls)).add(D[0][0]).add(D[0][1]).add(bb[0]).add(bb[1]));
}

// two nearly coincident contact points: whatever is pushed has to be enough, to single precision
void redundant(Ctx& ctx)
{
    Rng& r = ctx.rng;
    double m = r.logf_(0.05, 20), I = r.logf_(0.05, 20);
    double a = r.d(-1, 1), apart = r.chance(0.2) ? 0 : r.logf_(1e-6, 1e-2), c = a + apart;
    Matrix<float, 2, 2> A{float(m + I * a * a), float(m + I * a * c), float(m + I * a * c), float(m + I * c * c)};
    double v = r.logf_(1e-2, 10) * (r.chance(0.8) ? 1 : -1), spin = r.d(-2, 2);
    // almost the same approach at both
    Vector<float, 2> b{float(v), float(v + spin * apart)};
    Vector<float, 2> x = LcpSolver<float>{A}.solve(b);
    double scale = std::abs(v) + std::abs(spin * apart);
    for (int i = 0; i < 2; ++i)
    {
        double w = double(A(i, 0)) * x[0] + double(A(i, 1)) * x[1] - double(b[i]);
        ctx.max("redundant_miss", -w / scale);
        VF_CHECK(ctx, x[i] >= 0, "lcp-redundant", "nearly redundant rows: x[%d]=%.9g is negative", i, double(x[i]));
        VF_CHECK(ctx, w > -0.05 * scale, "lcp-redundant", "nearly redundant rows: (Ax-b)[%d]=%.9g with b=(%.9g %.9g), x=(%.9g %.9g)", i, w, double(b[0]), double(b[1]), double(x[0]), double(x[1]));
    }
    ctx.count("lcp_redundant");
}

template <int n>
void bounded(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Matrix<float, n, n> A;
    double D[n][n], km;
    spd<float, n>(r, A, D, km);
    // iteration tolerance is absolute on x: keep solutions of order one
    Vector<float, n> b, guess;
    double bb[n];
    for (int i = 0; i < n; ++i)
    {
        b[i] = r.f(-1, 1) * float(0.2 * D[i][i]);
        bb[i] = double(b[i]);
        guess[i] = r.chance(0.5) ? 0.f : r.f(-2, 2);
    }
    bool perRow = r.chance(0.5);
    bool upper = r.chance(0.3);
    Vector<float, n> hi = Vector<float, n>::filled(1e30f);
    if (upper) for (int i = 0; i < n; ++i) hi[i] = r.f(0.0, 0.3);
    Vector<float, n> x;
    if (perRow)
        x = solveInequalities(A, b, [=](const Vector<float, n>& l, Uint32 i) { return std::min(std::max(0.f, l[i]), hi[i]); }, guess, 1e-5f);
    else
        x = solveInequalities(A, b, [=](Vector<float, n> l) { return std::min(std::max(l, Vector<float, n>::filled(0.f)), hi); }, guess, 1e-5f);
    double tolW = 0;
    for (int i = 0; i < n; ++i)
    {
        double s = 0;
        for (int j = 0; j < n; ++j) s += std::abs(D[i][j]);
        tolW = std::max(tolW, s * 4e-5);
    }
    for (int i = 0; i < n; ++i)
    {
        double w = -bb[i];
        for (int j = 0; j < n; ++j) w += D[i][j] * double(x[j]);
        VF_CHECK(ctx, x[i] >= 0 && x[i] <= hi[i], "bounded-range", "component %d = %.9g outside [0, %g]", i, double(x[i]), double(hi[i]));
        bool atLow = x[i] <= 0, atHigh = x[i] >= hi[i];
        VF_CHECK(ctx, w >= -tolW || atHigh, "bounded", "size %d: residual %.9g at component %d below zero (tol %.3g)", n, w, i, tolW);
        VF_CHECK(ctx, w <= tolW || atLow, "bounded", "size %d: residual %.9g at free component %d (tol %.3g)", n, w, i, tolW);
    }
    ctx.count("bounded_systems");
}
} // namespace

VF_PROPERTY(M03)
{
    for (int k = 0; k < 20; ++k) { lcp2<float>(ctx); lcp2<float>(ctx); redundant(ctx); }
    for (int k = 0; k < 4; ++k) { bounded<1>(ctx); bounded<2>(ctx); bounded<3>(ctx); }
    ctx.sample("J M J^T matrices of two-point contacts and random SPD, all four active sets");
}
