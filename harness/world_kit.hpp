// Worlds from plain descriptions, and double-precision bookkeeping over the real objects.
#pragma once
#include "geo_oracle.hpp"
#include "Simu/physics.hpp"
#include <array>
#include <memory>
#include <optional>
#include <set>

namespace wk
{
using namespace simu;
using ref::P;
using ref::Poly;
using vf::Ctx;
using vf::Hash;
using vf::Rng;

constexpr double PI = 3.14159265358979323846;

inline P rot(P a, double t) { return {std::cos(t) * a.x - std::sin(t) * a.y, std::sin(t) * a.x + std::cos(t) * a.y}; }
inline P perp(P a) { return {-a.y, a.x}; } // w * perp(r) is the velocity of r
inline bool same(Vec2 a, Vec2 b) { return a[0] == b[0] && a[1] == b[1]; }
inline bool finite(P a) { return std::isfinite(a.x) && std::isfinite(a.y); }

struct Moments
{
    double area, inertia;
    P centroid;
};
inline Moments moments(const Poly& p)
{
    Moments m{};
    P o = p[0];
    double a = 0, i = 0;
    P c;
    for (size_t k = 0; k < p.size(); ++k)
    {
        P u = p[k] - o, v = p[(k + 1) % p.size()] - o;
        double x = ref::cross(u, v);
        a += x;
        c = c + (u + v) * x;
        i += x * (ref::dot(u, u) + ref::dot(u, v) + ref::dot(v, v));
    }
    m.area = std::abs(a / 2);
    P cc = c * (1 / (3 * a));
    m.centroid = o + cc;
    m.inertia = std::abs(i / 12) - m.area * ref::dot(cc, cc);
    return m;
}

struct ColSpec
{
    Poly poly;
    Material mat{};
};
struct BodySpec
{
    P pos;
    double angle = 0;
    P vel;
    double w = 0;
    float dominance = 1;
    std::vector<ColSpec> cols;
};

inline Polygon polygonOf(const Poly& p)
{
    auto v = ref::toVertices(p);
    return Polygon{v.begin(), v.end()};
}
inline Collider* addCol(Body* b, const ColSpec& c) { return b->addCollider(ColliderDescriptor{polygonOf(c.poly), c.mat}); }

template <class T = Body, class... A>
T* addBody(World& w, const BodySpec& s, A&&... a)
{
    BodyDescriptor d{};
    d.position = ref::v2(s.pos);
    d.orientation = float(s.angle);
    d.dominance = s.dominance;
    T* b = w.makeBody<T>(d, std::forward<A>(a)...);
    for (auto& c : s.cols) addCol(b, c);
    b->setVelocity(ref::v2(s.vel));
    b->setAngularVelocity(float(s.w));
    return b;
}

// a convex shape of about the given size (diameter), around c
inline Poly shape(Rng& r, double size, P c = P{}, int kind = -1)
{
    if (kind < 0) kind = r.i(0, 4);
    switch (kind)
    {
        case 0: return ref::boxPoly(size, size * r.d(0.3, 1), c, 0);
        case 1: return ref::boxPoly(size * r.d(0.7, 1), size * r.d(0.3, 0.7), c, r.d(0, 6.28));
        case 2: return ref::roundConvex(r, 3, size / 2, 1, c, r.d(0, 6.28));
        case 3: return ref::roundConvex(r, r.i(4, 8), size / 2, r.d(0.5, 1), c, r.d(0, 6.28));
        default:
        {
            int n = r.i(3, 8);
            double a0 = r.d(0, 6.28);
            Poly p;
            for (int i = 0; i < n; ++i)
                p.push_back(P{ref::v2(P{c.x + size / 2 * std::cos(a0 + 2 * PI * i / n), c.y + size / 2 * std::sin(a0 + 2 * PI * i / n)})});
            return p;
        }
    }
}

inline P worldOf(const Body* b, P local)
{
    P c{b->localCentroid()};
    return P{b->position()} + c + rot(local - c, double(b->orientation()));
}
inline P velocityAt(const Body* b, P world) { return P{b->velocity()} + perp(world - P{b->centroid()}) * double(b->angularVelocity()); }

inline Poly worldPoly(const Collider& c)
{
    Poly p;
    for (const auto& v : c.vertexView()) p.push_back(P{v});
    return p;
}

struct Totals
{
    double m = 0, L = 0, E = 0, scaleP = 0, scaleL = 0;
    P p, com;
};
template <class Bs>
Totals totals(const Bs& bodies)
{
    Totals t;
    for (const Body* b : bodies)
    {
        double m = b->mass(), I = b->inertia(), w = b->angularVelocity();
        P v{b->velocity()}, c{b->centroid()};
        t.m += m;
        t.p = t.p + v * m;
        t.com = t.com + c * m;
        t.L += m * ref::cross(c, v) + I * w;
        t.E += (m * ref::dot(v, v) + I * w * w) / 2;
        t.scaleP += m * ref::norm(v);
        t.scaleL += m * ref::norm(v) * (ref::norm(c) + 1) + I * std::abs(w);
    }
    if (t.m > 0) t.com = t.com * (1 / t.m);
    return t;
}

struct Snap
{
    Vec2 x, v, c;
    float th, w;
    explicit Snap(const Body* b) : x{b->position()}, v{b->velocity()}, c{b->centroid()}, th{b->orientation()}, w{b->angularVelocity()} {}
    bool operator==(const Snap& o) const { return same(x, o.x) && same(v, o.v) && th == o.th && w == o.w; }
};

// observes the solver from inside: a constraint that applies nothing
struct Probe : public Constraint
{
    struct Frame
    {
        std::array<P, 2> v, c;
        std::array<double, 2> w;
    };
    bool active = true;
    int nActive = 0, nInit = 0, nWarm = 0, nVel = 0, nPos = 0;
    std::vector<Frame> vel, pos; // states seen at each velocity / position iteration
    Frame init;
    explicit Probe(const Bodies& b, bool noContacts = false) : Constraint{b, noContacts} {}
    static Frame look(const Proxies& p)
    {
        Frame f;
        for (unsigned i = 0; i < 2; ++i)
        {
            f.v[i] = P{p[i].velocity()};
            f.c[i] = P{p[i].centroid()};
            f.w[i] = p[i].angularVelocity();
        }
        return f;
    }
    void reset()
    {
        nActive = nInit = nWarm = nVel = nPos = 0;
        vel.clear();
        pos.clear();
    }
    bool isActive(const Proxies&) override { ++nActive; return active; }
    void initSolve(const Proxies& p) override { ++nInit; init = look(p); }
    void warmstart(Proxies&, float) override { ++nWarm; }
    void solveVelocities(Proxies& p, float) override { ++nVel; vel.push_back(look(p)); }
    void solvePositions(Proxies& p) override { ++nPos; pos.push_back(look(p)); }
};

// records what a contact says right after it was refreshed
struct WatchedContact : public ContactConstraint
{
    std::function<void(WatchedContact&)> onRefresh;
    WatchedContact(Collider& a, Collider& b, std::function<void(WatchedContact&)> f = {}) : ContactConstraint{a, b}, onRefresh{std::move(f)} {}
    void preStep() override
    {
        ContactConstraint::preStep();
        if (onRefresh) onRefresh(*this);
    }
};
inline World::ContactFactory watching(std::function<void(WatchedContact&)> f)
{
    return [f](Collider& a, Collider& b, const World::ContactAlloc& al) -> UniquePtr<ContactConstraint> {
        return makeUnique<WatchedContact>(al, a, b, f);
    };
}

inline bool boxesTouch(const BoundingBox& a, const BoundingBox& b)
{
    return a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1] && b.min()[1] <= a.max()[1];
}
inline bool boxHas(const BoundingBox& a, Vec2 p)
{
    return a.min()[0] <= p[0] && p[0] <= a.max()[0] && a.min()[1] <= p[1] && p[1] <= a.max()[1];
}

// ---------------------------------------------------------------------------
// whole scenes from plain descriptions, so that the same one can be built several times
struct JointSpec
{
    enum Kind { rotation, hinge, weld, distance, rotMotor, transMotor };
    Kind kind = hinge;
    int a = 0, b = 0; // bodies, in the order they are named
    P p0, p1;         // world anchors (hinge: p0)
    std::optional<float> lo, hi;
    bool noContacts = true;
    std::optional<std::array<float, 2>> dom;
    float maxV = 1, maxF = 1, throttle = 1;
    P dir;
};
struct Joint
{
    JointSpec spec;
    Constraint* c = nullptr;
    P l0, l1; // anchors in the local frames
    double angle0 = 0;
};
struct Scene
{
    std::vector<BodySpec> bodies;
    std::vector<JointSpec> joints;
    std::vector<P> gravities;
    World::Settings settings{};
};
inline P localOf(const Body* b, P world)
{
    P c{b->localCentroid()};
    return c + rot(world - P{b->position()} - c, -double(b->orientation()));
}
inline Bodies bodiesOf(const std::vector<Body*>& bs, const JointSpec& j)
{
    if (j.kind == JointSpec::rotMotor || j.kind == JointSpec::transMotor) return Bodies::singleBody(bs[size_t(j.a)]);
    if (j.dom) return Bodies({bs[size_t(j.a)], bs[size_t(j.b)]}, Bodies::Dominance{(*j.dom)[0], (*j.dom)[1]});
    return Bodies{bs[size_t(j.a)], bs[size_t(j.b)]};
}
inline Joint makeJoint(World& w, const std::vector<Body*>& bs, const JointSpec& j)
{
    Joint out;
    out.spec = j;
    Bodies b = bodiesOf(bs, j);
    Body *b0 = bs[size_t(j.a)], *b1 = bs[size_t(j.b)];
    P p0 = j.p0, p1 = j.p1;
    switch (j.kind)
    {
        case JointSpec::rotation: out.c = w.makeConstraint<RotationConstraint>(b, j.noContacts); break;
        case JointSpec::hinge:
            out.c = w.makeConstraint<HingeConstraint>(b, ref::v2(j.p0), j.noContacts);
            p1 = p0;
            break;
        case JointSpec::weld:
            out.c = w.makeConstraint<WeldConstraint>(b, j.noContacts);
            p0 = p1 = (P{b0->centroid()} + P{b1->centroid()}) * 0.5;
            break;
        case JointSpec::distance:
            out.c = w.makeConstraint<DistanceConstraint>(b, std::array<Vec2, 2>{ref::v2(j.p0), ref::v2(j.p1)}, j.lo, j.hi, j.noContacts);
            break;
        case JointSpec::rotMotor:
        {
            auto* m = w.makeConstraint<RotationMotor>(b, RotationMotor::Specs::fromTorque(j.maxV, j.maxF));
            m->throttle(j.throttle);
            m->direction(RotationMotor::Value{float(j.dir.x)});
            out.c = m;
            break;
        }
        case JointSpec::transMotor:
        {
            auto* m = w.makeConstraint<TranslationMotor>(b, TranslationMotor::Specs::fromForce(j.maxV, j.maxF));
            m->throttle(j.throttle);
            m->direction(ref::v2(j.dir));
            out.c = m;
            break;
        }
    }
    out.l0 = localOf(b0, p0);
    out.l1 = localOf(b1, p1);
    out.angle0 = double(b1->orientation()) - double(b0->orientation());
    return out;
}
struct Built
{
    std::unique_ptr<World> own;
    World& w;
    std::vector<Body*> bodies;
    std::vector<Joint> joints;
    explicit Built(const Scene& s, World* into = nullptr) : own{into ? nullptr : std::make_unique<World>()}, w{into ? *into : *own} { add(s); }
    void add(const Scene& s)
    {
        w.updateSettings(s.settings);
        for (P g : s.gravities) w.makeForceField<Gravity>(ref::v2(g));
        for (auto& b : s.bodies) bodies.push_back(addBody(w, b));
        for (auto& j : s.joints) joints.push_back(makeJoint(w, bodies, j));
    }
    P anchor(const Joint& j, int k) const { return k == 0 ? worldOf(bodies[size_t(j.spec.a)], j.l0) : worldOf(bodies[size_t(j.spec.b)], j.l1); }
    // how far the joint is from its relation: length, angle
    double gap(const Joint& j) const
    {
        double d = ref::norm(anchor(j, 1) - anchor(j, 0));
        switch (j.spec.kind)
        {
            case JointSpec::hinge:
            case JointSpec::weld: return d;
            case JointSpec::distance: return std::max({0.0, j.spec.lo ? *j.spec.lo - d : 0.0, j.spec.hi ? d - *j.spec.hi : 0.0});
            default: return 0;
        }
    }
    double twist(const Joint& j) const
    {
        if (j.spec.kind != JointSpec::rotation && j.spec.kind != JointSpec::weld) return 0;
        return std::abs(double(bodies[size_t(j.spec.b)]->orientation()) - double(bodies[size_t(j.spec.a)]->orientation()) - j.angle0);
    }
    std::vector<Snap> snaps() const
    {
        std::vector<Snap> v;
        for (Body* b : bodies) v.push_back(Snap{b});
        return v;
    }
};
inline bool tame(const Built& b, double x = 500, double v = 500)
{
    for (Body* k : b.bodies)
        if (!(ref::norm(P{k->position()}) < x && ref::norm(P{k->velocity()}) < v && std::abs(k->angularVelocity()) < v)) return false;
    return true;
}

struct SceneOptions
{
    int minBodies = 2, maxBodies = 6;
    double spacing = 2;       // between neighbours
    double massRatio = 10;    // largest density over smallest
    bool structural = false;  // some bodies of dominance 0
    bool dominances = false;  // other dominances
    bool loops = false;
    bool motors = false;
    int joint = -1;           // kind, or any
    bool disableContacts = true;
    double speed = 2;
};
inline Scene jointedScene(Rng& r, const SceneOptions& o)
{
    Scene s;
    int n = r.i(o.minBodies, o.maxBodies);
    P at{r.d(-5, 5), r.d(-5, 5)};
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        b.pos = at;
        b.angle = r.chance(0.3) ? 0 : r.d(-3, 3);
        b.vel = P{r.d(-1, 1), r.d(-1, 1)} * o.speed;
        b.w = r.d(-1, 1) * o.speed;
        int nc = r.chance(0.2) ? 2 : 1;
        float density = r.logf_(1, float(o.massRatio) > 1 ? float(o.massRatio) : 1.0001f);
        for (int c = 0; c < nc; ++c)
        {
            ColSpec col{shape(r, r.d(0.6, 1.2), c == 0 ? P{} : P{r.d(-.4, .4), r.d(-.4, .4)}, r.i(0, 1) == 0 ? 0 : 4)};
            col.mat.density = density;
            b.cols.push_back(col);
        }
        if (o.structural && r.chance(0.3)) b.dominance = 0;
        if (o.dominances && r.chance(0.5)) b.dominance = r.f(0.2f, 3.f);
        if (b.dominance == 0 && r.chance(0.6)) b.vel = P{}, b.w = 0;
        else if (b.dominance == 0 && r.chance(0.4))
        {
            if (r.chance(0.5)) b.vel = P{};
            else b.w = 0;
        }
        s.bodies.push_back(b);
        double t = r.d(-1.2, 1.2) + (k % 3 == 0 ? 0.5 : 0);
        at = at + P{o.spacing * std::cos(t), o.spacing * std::sin(t)};
    }
    // all bodies move together when they are linked: relative velocities consistent enough
    auto link = [&](int a, int b) {
        if (s.bodies[size_t(a)].dominance == 0 && s.bodies[size_t(b)].dominance == 0) return;
        JointSpec j;
        if (r.chance(0.5)) std::swap(a, b);
        j.a = a;
        j.b = b;
        j.noContacts = o.disableContacts || r.chance(0.5);
        P ca = s.bodies[size_t(a)].pos, cb = s.bodies[size_t(b)].pos;
        int kind = o.joint >= 0 ? o.joint : r.i(0, 6);
        P mid = (ca + cb) * 0.5;
        switch (kind)
        {
            case 0: j.kind = JointSpec::rotation; break;
            case 1: j.kind = JointSpec::weld; break;
            case 2:
            case 3:
                j.kind = JointSpec::hinge;
                j.p0 = P{ref::v2(mid + P{r.d(-.4, .4), r.d(-.4, .4)})};
                break;
            default:
            {
                j.kind = JointSpec::distance;
                j.p0 = P{ref::v2(ca + P{r.d(-.3, .3), r.d(-.3, .3)})};
                j.p1 = P{ref::v2(cb + P{r.d(-.3, .3), r.d(-.3, .3)})};
                double d = ref::norm(j.p1 - j.p0);
                if (kind == 4) j.lo = j.hi = float(d);
                else if (kind == 5) { j.hi = float(d * r.d(1, 1.05)); if (r.chance(0.5)) j.lo = float(d * r.d(0.7, 1)); }
                else { j.lo = float(d * r.d(0.95, 1)); if (r.chance(0.5)) j.hi = float(d * r.d(1, 1.3)); }
            }
        }
        s.joints.push_back(j);
    };
    for (int k = 1; k < n; ++k) link(r.chance(0.75) ? k - 1 : r.i(0, k - 1), k);
    if (o.loops && n > 2)
        for (int k = r.i(1, 2); k > 0; --k)
        {
            int a = r.i(0, n - 1), b = r.i(0, n - 1);
            if (a != b) link(a, b);
        }
    if (o.motors)
        for (int k = 0; k < n; ++k)
            if (s.bodies[size_t(k)].dominance != 0 && r.chance(0.3))
            {
                JointSpec j;
                j.kind = r.chance(0.5) ? JointSpec::rotMotor : JointSpec::transMotor;
                j.a = j.b = k;
                j.maxV = r.f(0.5f, 5);
                j.maxF = r.f(0.5f, 20);
                j.throttle = r.chance(0.2) ? 0.f : r.f(0.1f, 1);
                j.dir = j.kind == JointSpec::rotMotor ? P{r.chance(0.5) ? 1.0 : -1.0, 0} : P{r.d(-1, 1), r.d(-1, 1)};
                s.joints.push_back(j);
            }
    return s;
}
} // namespace wk
