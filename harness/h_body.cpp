// B01..B04, W05: bodies, mass, free motion, force fields, spatial queries.
#include "world_kit.hpp"
using namespace wk;

namespace
{
struct MassModel
{
    double m = 0, I = 0;
    P c;
};
MassModel massOf(const std::vector<ColSpec>& cols)
{
    MassModel t;
    std::vector<Moments> ms;
    for (auto& c : cols)
    {
        auto m = moments(c.poly);
        ms.push_back(m);
        t.m += m.area * c.mat.density;
        t.c = t.c + m.centroid * (m.area * c.mat.density);
    }
    if (t.m > 0) t.c = t.c * (1 / t.m);
    for (size_t k = 0; k < cols.size(); ++k)
    {
        P d = ms[k].centroid - t.c;
        t.I += cols[k].mat.density * (ms[k].inertia + ms[k].area * ref::dot(d, d));
    }
    return t;
}
// magnitude the library's float sums go through (inertia about the local origin)
double inertiaScale(const std::vector<ColSpec>& cols)
{
    double s = 0;
    for (auto& c : cols)
    {
        auto m = moments(c.poly);
        double e = ref::extent(c.poly) * 1.5;
        s += c.mat.density * (m.inertia + m.area * ref::dot(m.centroid, m.centroid)) + c.mat.density * e * e * (m.area + 0.1 * e * e);
    }
    return s;
}

ColSpec randomCol(Rng& r, double size, double spread)
{
    ColSpec c;
    P at{r.d(-spread, spread), r.d(-spread, spread)};
    c.poly = shape(r, size * r.d(0.4, 1), at);
    if (r.chance(0.2)) std::reverse(c.poly.begin(), c.poly.end());
    if (r.chance(0.1)) // an L profile, not convex
    {
        c.poly = Poly{{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}};
        for (auto& q : c.poly) q = P{ref::v2(P{at.x + q.x * size / 2, at.y + q.y * size / 2})};
    }
    c.mat.density = r.logf_(0.1, 20);
    return c;
}

struct Tracked
{
    Body* b;
    std::vector<std::pair<Collider*, ColSpec>> cols; // in order of addition
    std::vector<ColSpec> specs() const
    {
        std::vector<ColSpec> s;
        for (auto& c : cols) s.push_back(c.second);
        return s;
    }
};

void judgeGeometry(Ctx& ctx, const Tracked& t)
{
    Body* b = t.b;
    size_t k = 0;
    Transform tw = b->toWorldSpace(), tl = b->toLocalSpace();
    double ext = ref::norm(P{b->position()}) + ref::norm(P{b->localCentroid()}) + 1;
    for (auto& c : t.cols) ext = std::max(ext, ref::norm(P{b->position()}) + 2 * ref::extent(c.second.poly) + 2 * ref::norm(P{b->localCentroid()}));
    double tol = 3e-6 * ext;
    for (const Collider& c : b->colliders())
    {
        VF_CHECK(ctx, k < t.cols.size() && &c == t.cols[k].first, "collider-list", "the body lists unexpected colliders (#%zu)", k);
        VF_CHECK(ctx, c.body() == b, "collider-owner", "collider #%zu names another body", k);
        Polygon local = polygonOf(t.cols[k].second.poly);
        Poly w = worldPoly(c);
        size_t i = 0;
        P lo{1e300, 1e300}, hi{-1e300, -1e300};
        for (auto& v : local)
        {
            VF_CHECK(ctx, i < w.size(), "vertex-count", "collider #%zu lost vertices", k);
            P e = worldOf(b, P{v}), g = w[i];
            VF_CHECK(ctx, ref::norm(g - e) <= tol, "world-vertex", "collider #%zu vertex %zu at (%.9g %.9g), the moved local vertex is (%.9g %.9g), angle %g",
                     k, i, g.x, g.y, e.x, e.y, double(b->orientation()));
            P viaT{tw * v};
            VF_CHECK(ctx, ref::norm(viaT - e) <= tol, "to-world", "toWorldSpace() puts (%g %g) at (%.9g %.9g) not (%.9g %.9g)", v[0], v[1], viaT.x, viaT.y, e.x, e.y);
            P back{tl * ref::v2(g)};
            VF_CHECK(ctx, ref::norm(back - P{v}) <= 2 * tol, "to-local", "toLocalSpace() maps world vertex back to (%.9g %.9g) not (%.9g %.9g)", back.x, back.y, double(v[0]), double(v[1]));
            lo = P{std::min(lo.x, g.x), std::min(lo.y, g.y)};
            hi = P{std::max(hi.x, g.x), std::max(hi.y, g.y)};
            ++i;
        }
        VF_CHECK(ctx, i == w.size(), "vertex-count", "collider #%zu has %zu vertices, %zu expected", k, w.size(), i);
        BoundingBox bb = c.boundingBox();
        VF_CHECK(ctx, P{bb.min()} == lo && P{bb.max()} == hi, "box", "collider #%zu box (%.9g %.9g)-(%.9g %.9g), its vertices span (%.9g %.9g)-(%.9g %.9g)",
                 k, double(bb.min()[0]), double(bb.min()[1]), double(bb.max()[0]), double(bb.max()[1]), lo.x, lo.y, hi.x, hi.y);
        ++k;
    }
    VF_CHECK(ctx, k == t.cols.size(), "collider-list", "the body lists %zu colliders of %zu", k, t.cols.size());
    if (!t.cols.empty())
    {
        MassModel m = massOf(t.specs());
        double mtol = 1e-5;
        for (auto& c : t.cols) mtol = std::max(mtol, 2e-5 * ref::extent(c.second.poly));
        P lc{b->localCentroid()};
        VF_CHECK(ctx, ref::norm(lc - m.c) <= mtol, "local-centroid", "local centroid (%.9g %.9g), centre of mass of the colliders (%.9g %.9g)", lc.x, lc.y, m.c.x, m.c.y);
        P wc = worldOf(b, m.c), g{b->centroid()};
        VF_CHECK(ctx, ref::norm(g - wc) <= mtol + tol, "centroid", "centroid (%.9g %.9g), world image of the centre of mass (%.9g %.9g)", g.x, g.y, wc.x, wc.y);
    }
}
std::vector<Body*> pointers(const std::vector<Tracked>& ts)
{
    std::vector<Body*> v;
    for (auto& t : ts) v.push_back(t.b);
    return v;
}
} // namespace

// ---------------------------------------------------------------------------
VF_PROPERTY(B01)
{
    Rng& r = ctx.rng;
    World w;
    std::vector<Tracked> ts;
    double area = r.d(2, 12);
    auto newBody = [&] {
        BodySpec s;
        s.pos = P{r.d(-area, area), r.d(-area, area)};
        s.angle = r.chance(0.2) ? 0 : r.d(-8, 8);
        s.vel = P{r.d(-3, 3), r.d(-3, 3)};
        s.w = r.d(-3, 3);
        if (r.chance(0.2)) s.dominance = 0, s.w = 0, s.vel = P{};
        Tracked t;
        t.b = addBody(w, s);
        // placement: nothing but the descriptor decides
        VF_CHECK(ctx, same(t.b->position(), ref::v2(s.pos)) && t.b->orientation() == float(s.angle), "placement", "a new body is not where it was put");
        int n = r.i(1, 4);
        for (int k = 0; k < n; ++k)
        {
            ColSpec c = randomCol(r, 1.5, r.chance(0.3) ? 0 : 1.5);
            Collider* p = addCol(t.b, c);
            t.cols.push_back({p, c});
        }
        VF_CHECK(ctx, same(t.b->position(), ref::v2(s.pos)) && t.b->orientation() == float(s.angle), "placement", "adding colliders moved or turned the body's origin");
        judgeGeometry(ctx, t);
        ts.push_back(t);
        ctx.count("bodies");
    };
    int n = r.i(1, 5);
    for (int k = 0; k < n; ++k) newBody();
    if (r.chance(0.5)) w.makeForceField<Gravity>();
    int ops = ctx.thorough ? 60 : 25;
    Hash h;
    for (int k = 0; k < ops; ++k)
    {
        size_t i = ts.empty() ? 0 : r.next() % ts.size();
        int op = r.i(0, 11);
        h.add(uint64_t(op));
        if (ts.empty()) op = 0;
        if (op == 0 && ts.size() < 7) newBody();
        else if (op == 1)
        {
            ColSpec c = randomCol(r, 1.5, 1.5);
            ts[i].cols.push_back({addCol(ts[i].b, c), c});
            ctx.count("colliders_added");
            if (ts[i].b->orientation() != 0) ctx.count("added_when_turned");
        }
        else if (op == 2 && ts[i].cols.size() > 1)
        {
            size_t j = r.next() % ts[i].cols.size();
            ts[i].b->removeCollider(ts[i].cols[j].first);
            ts[i].cols.erase(ts[i].cols.begin() + long(j));
            ctx.count("colliders_removed");
        }
        else if (op == 3 && ts.size() > 1)
        {
            size_t j = r.next() % ts.size();
            if (j != i && !(ts[i].b->isStructural() && ts[j].b->isStructural()))
            {
                Bodies bs{ts[i].b, ts[j].b};
                Vec2 mid = (ts[i].b->centroid() + ts[j].b->centroid()) / 2.f;
                if (r.chance(0.5)) w.makeConstraint<HingeConstraint>(bs, mid);
                else w.makeConstraint<RotationConstraint>(bs);
                ctx.count("joints");
            }
        }
        else if (op == 4) ts[i].b->setVelocity(Vec2{r.f(-5, 5), r.f(-5, 5)});
        else if (op == 5) ts[i].b->setAngularVelocity(r.f(-5, 5));
        else if (op == 6 && !ts[i].b->isStructural()) ts[i].b->applyImpulse(Vec2{r.f(-2, 2), r.f(-2, 2)} * ts[i].b->mass(), Vec2{r.f(-1, 1), r.f(-1, 1)});
        else if (op == 7 && ts.size() > 1)
        {
            ts[i].b->kill();
            ts.erase(ts.begin() + long(i));
            w.step(0.f);
        }
        else
        {
            float dt = r.chance(0.1) ? 0.f : r.f(0.001, 0.05);
            for (auto& t : ts) ctx.log("op %d body x=(%g %g) th=%g v=(%g %g) w=%g m=%g I=%g dom=%g", k, t.b->position()[0], t.b->position()[1], t.b->orientation(), t.b->velocity()[0], t.b->velocity()[1], t.b->angularVelocity(), t.b->mass(), t.b->inertia(), t.b->dominance());
            w.step(dt);
            ctx.count("steps");
            for (auto& c : w.contacts()) (void)c, ctx.count("contacts");
        }
        bool wild = false; // outside what the property is about (joints with far anchors whip light bodies around)
        for (auto& t : ts)
        {
            wild = wild || ref::norm(P{t.b->position()}) > 500 || ref::norm(P{t.b->velocity()}) > 1000 || std::abs(t.b->angularVelocity()) > 1000;
            if (ref::norm(P{t.b->position()}) < 500) judgeGeometry(ctx, t), ctx.count("judged");
        }
        if (wild) break;
    }
    ctx.state(h.add(double(ts.empty() ? 0 : ts[0].b->position()[0])));
}

// ---------------------------------------------------------------------------
VF_PROPERTY(B02)
{
    Rng& r = ctx.rng;
    World w;
    int scenario = r.i(0, 3);
    if (scenario <= 1)
    { // add/remove history, compared with the parallel-axis theorem and with other orders
        BodySpec s;
        s.pos = P{r.d(-5, 5), r.d(-5, 5)};
        s.angle = r.chance(0.4) ? 0 : r.d(-7, 7);
        Tracked t;
        t.b = addBody(w, s);
        double spread = r.pick<double>({0, 1, 4});
        Hash h;
        int ops = r.i(3, 16);
        for (int k = 0; k < ops; ++k)
        {
            bool spin = r.chance(0.6);
            if (spin && !t.cols.empty())
            {
                t.b->setVelocity(Vec2{r.f(-3, 3), r.f(-3, 3)});
                t.b->setAngularVelocity(r.f(-4, 4));
            }
            bool had = !t.cols.empty();
            std::array<P, 3> loc{P{r.d(-2, 2), r.d(-2, 2)}, P{0, 0}, P{r.d(-2, 2), r.d(-2, 2)}};
            std::array<P, 3> before;
            float w0 = t.b->angularVelocity();
            for (int j = 0; j < 3; ++j) before[j] = velocityAt(t.b, worldOf(t.b, loc[j]));
            if (t.cols.empty() || (t.cols.size() < 6 && r.chance(0.6)))
            {
                ColSpec c = randomCol(r, r.d(0.3, 2), spread);
                t.cols.push_back({addCol(t.b, c), c});
                ctx.count("added");
            }
            else if (t.cols.size() > 1 || r.chance(0.3))
            {
                size_t j = r.next() % t.cols.size();
                t.b->removeCollider(t.cols[j].first);
                t.cols.erase(t.cols.begin() + long(j));
                ctx.count("removed");
                if (t.cols.empty()) ctx.count("emptied");
            }
            if (r.chance(0.2)) w.step(r.f(0.001, 0.02)), had = false;
            auto specs = t.specs();
            MassModel m = massOf(specs);
            h.add(m.m);
            double areaScale = 0, ext = 1; // what the sums of products of coordinates go through
            for (auto& c : specs)
            {
                double e = ref::extent(c.poly) * 1.5;
                areaScale += c.mat.density * e * e;
                ext = std::max(ext, e);
            }
            VF_CHECK(ctx, std::abs(t.b->mass() - m.m) <= 1e-5 * m.m + 1e-6 * areaScale, "mass", "mass %.9g, the colliders weigh %.9g", double(t.b->mass()), m.m);
            if (specs.empty()) continue;
            double is = inertiaScale(specs);
            VF_CHECK(ctx, std::abs(t.b->inertia() - m.I) <= 1e-5 * is, "inertia", "inertia %.9g, the colliders have %.9g (%zu colliders)", double(t.b->inertia()), m.I, specs.size());
            VF_CHECK(ctx, std::abs(double(t.b->invMass()) * t.b->mass() - 1) <= 1e-6, "inverse-mass", "inverse mass %g of mass %g", double(t.b->invMass()), m.m);
            VF_CHECK(ctx, std::abs(t.b->invInertia() * t.b->inertia() - 1) <= 4e-5, "inverse-inertia", "inverse inertia inconsistent");
            VF_CHECK(ctx, ref::norm(P{t.b->localCentroid()} - m.c) <= ext * (1e-5 + 3e-6 * areaScale / m.m), "centre", "centre (%.9g %.9g), colliders' (%.9g %.9g)",
                     double(t.b->localCentroid()[0]), double(t.b->localCentroid()[1]), m.c.x, m.c.y);
            if (had && t.cols.size() > 0)
            {
                VF_CHECK(ctx, t.b->angularVelocity() == w0, "spin-kept", "changing colliders changed the spin %g -> %g", double(w0), double(t.b->angularVelocity()));
                for (int j = 0; j < 3; ++j)
                {
                    P after = velocityAt(t.b, worldOf(t.b, loc[j]));
                    double tol = 1e-5 * (1 + ext) * (1 + std::abs(w0)) * (1 + 0.1 * areaScale / m.m) + 1e-5 * ref::norm(before[j]);
                    VF_CHECK(ctx, ref::norm(after - before[j]) <= tol * 3, "material-velocity",
                             "the material point at local (%g %g) moved at (%g %g), after changing colliders at (%g %g), spin %g", loc[j].x, loc[j].y, before[j].x, before[j].y, after.x, after.y, double(w0));
                }
                if (w0 != 0) ctx.count("spinning_changes");
            }
        }
        // same colliders added in another order
        auto specs = t.specs();
        if (specs.size() > 1)
        {
            r.shuffle(specs);
            Body* o = addBody(w, s);
            for (auto& c : specs) addCol(o, c);
            double is = inertiaScale(specs);
            VF_CHECK(ctx, std::abs(o->mass() - t.b->mass()) <= 1e-5 * o->mass() && std::abs(o->inertia() - t.b->inertia()) <= 2e-5 * is, "order",
                     "the same colliders in another order give mass %g/%g inertia %g/%g", double(o->mass()), double(t.b->mass()), double(o->inertia()), double(t.b->inertia()));
            ctx.count("reordered");
        }
        ctx.state(h);
        return;
    }
    // a joint (or contact) made before the change acts as one made after it
    World w2;
    int kind = r.i(0, 5);
    bool contact = kind == 5;
    BodySpec a, b;
    a.cols = {ColSpec{shape(r, 1.5, P{r.d(-.3, .3), r.d(-.3, .3)})}};
    b.cols = {ColSpec{shape(r, 1.5, P{r.d(-.3, .3), r.d(-.3, .3)})}};
    a.cols[0].mat.density = r.logf_(0.3, 5);
    b.cols[0].mat.density = r.logf_(0.3, 5);
    b.pos = contact ? P{r.d(0.3, 0.6), r.d(-0.5, 0.5)} : P{r.d(2, 4), r.d(-2, 2)};
    a.dominance = r.chance(0.3) ? r.f(0.2, 3) : 1.f;
    b.dominance = r.chance(0.3) ? r.f(0.2, 3) : 1.f;
    P anchor{r.d(0, 3), r.d(-1, 1)};
    ColSpec extra = randomCol(r, 1.5, 1);
    extra.mat.density = r.logf_(1, 20);
    bool remove = r.chance(0.3);
    std::array<float, 6> vel;
    for (auto& v : vel) v = r.f(-3, 3);
    bool pos = r.chance(0.5);
    std::array<std::array<Snap, 2>, 2> res{std::array<Snap, 2>{Snap{addBody(w, a)}, Snap{w.makeBody({})}}, std::array<Snap, 2>{Snap{addBody(w, a)}, Snap{w.makeBody({})}}};
    w.clear();
    std::array<double, 2> momentum;
    for (int k = 0; k < 2; ++k)
    {
        World& x = k == 0 ? w : w2;
        World::Settings st;
        st.nPositionIterations = pos ? 2 : 0;
        x.updateSettings(st);
        Body* p = addBody(x, a);
        Body* q = addBody(x, b);
        Collider* c = nullptr;
        if (remove) c = addCol(p, extra);
        auto change = [&] {
            if (remove) p->removeCollider(c);
            else addCol(p, extra);
        };
        if (k == 1 || contact) change();
        Bodies bs{p, q};
        if (kind == 0) x.makeConstraint<HingeConstraint>(bs, ref::v2(anchor));
        if (kind == 1) x.makeConstraint<WeldConstraint>(bs), (void)0;
        if (kind == 2) x.makeConstraint<RotationConstraint>(bs);
        if (kind == 3) x.makeConstraint<DistanceConstraint>(bs, std::array<Vec2, 2>{ref::v2(a.pos + P{0.2, 0.1}), ref::v2(b.pos)});
        if (kind == 4) x.makeConstraint<HingeConstraint>(Bodies{{q, p}, Vec2{0.5f, 2.f}}, ref::v2(anchor));
        if (k == 0 && !contact) change();
        if (contact)
        {
            if (k == 0)
            { // contact exists while the mass changes (same geometry: a collider nested in the first)
                if (remove) c = nullptr;
            }
            x.step(1e-6f);
        }
        p->setVelocity(Vec2{vel[0], vel[1]});
        q->setVelocity(Vec2{vel[2], vel[3]});
        p->setAngularVelocity(vel[4]);
        q->setAngularVelocity(vel[5]);
        x.step(0.01f);
        res[k] = {Snap{p}, Snap{q}};
        momentum[k] = p->mass() * p->velocity()[0];
    }
    if (contact)
    { // judged by momentum: nested collider of another density added to and removed from a touching body
        World x;
        Body* p = addBody(x, a);
        Body* q = addBody(x, b);
        x.step(1e-6f);
        ColSpec inner = a.cols[0];
        inner.mat.density = extra.mat.density;
        P cc = moments(inner.poly).centroid;
        for (auto& v : inner.poly) v = P{ref::v2(cc + (v - cc) * 0.5)};
        bool touching = false;
        for (auto& ct : x.contacts()) touching = touching || ct.contactInfo().nContacts > 0;
        Collider* in = addCol(p, inner);
        if (r.chance(0.5)) x.step(1e-6f);
        if (r.chance(0.3)) p->removeCollider(in);
        P rel = P{q->centroid()} - P{p->centroid()};
        P dir = rel * (1 / (ref::norm(rel) + 1e-9));
        p->setVelocity(ref::v2(dir * 3.0));
        q->setVelocity(ref::v2(dir * -3.0));
        p->setAngularVelocity(vel[4]);
        // momentum weighted by dominance is exchanged
        double da = a.dominance, db = b.dominance;
        P before = P{p->velocity()} * (p->mass() / da) + P{q->velocity()} * (q->mass() / db);
        Vec2 v0 = p->velocity();
        x.step(0.001f);
        P after = P{p->velocity()} * (p->mass() / da) + P{q->velocity()} * (q->mass() / db);
        double scale = 3 * (p->mass() / da + q->mass() / db);
        VF_CHECK(ctx, ref::norm(after - before) <= 1e-4 * scale, "contact-mass", "momentum (%g %g) became (%g %g) after the mass of a touching body changed", before.x, before.y, after.x, after.y);
        if (touching && !same(v0, p->velocity())) ctx.count("contacts_after_change");
        return;
    }
    for (int k = 0; k < 2; ++k)
    {
        double scale = 1 + 3 * (ref::norm(anchor) + 3);
        auto& A = res[0][k];
        auto& B = res[1][k];
        if (kind == 1) scale *= 2; // the weld's anchor is the mid point of the centroids at construction
        double dv = ref::norm(P{A.v} - P{B.v}), dw = std::abs(A.w - B.w);
        if (kind == 1)
        { // the anchor of the two welds differs, a weld's motion does not depend on it at first order
            VF_CHECK(ctx, dv <= 0.02 * scale && dw <= 0.02 * scale, "joint-mass", "weld made before the mass change: body %d moves at (%g %g) w %g, made after it (%g %g) w %g",
                     k, double(A.v[0]), double(A.v[1]), double(A.w), double(B.v[0]), double(B.v[1]), double(B.w));
        }
        else
            VF_CHECK(ctx, dv <= 1e-4 * scale && dw <= 1e-4 * scale, "joint-mass", "kind %d joint made before the mass change: body %d moves at (%g %g) w %g, made after it (%g %g) w %g",
                     kind, k, double(A.v[0]), double(A.v[1]), double(A.w), double(B.v[0]), double(B.v[1]), double(B.w));
        VF_CHECK(ctx, ref::norm(P{A.x} - P{B.x}) <= 1e-2, "joint-mass-position", "positions differ by %g", ref::norm(P{A.x} - P{B.x}));
    }
    ctx.count("joints_before_change");
    ctx.state(Hash{}.add(uint64_t(kind)).add(res[0][0].v[0]).add(res[0][1].w));
}

// ---------------------------------------------------------------------------
VF_PROPERTY(B03)
{
    Rng& r = ctx.rng;
    World w;
    int n = r.i(1, 8);
    struct S
    {
        BodySpec spec;
        Body* b;
        World* alone;
        Body* lone;
    };
    std::vector<std::unique_ptr<World>> lonely;
    std::vector<S> bs;
    for (int k = 0; k < n; ++k)
    {
        S s;
        s.spec.pos = P{k * 1000.0 + r.d(-5, 5), r.d(-50, 50)};
        s.spec.angle = r.chance(0.3) ? 0 : r.d(-20, 20);
        s.spec.vel = r.chance(0.1) ? P{} : P{r.d(-30, 30), r.d(-30, 30)};
        s.spec.w = r.chance(0.2) ? 0 : r.d(-10, 10);
        s.spec.dominance = r.pick<float>({1, 1, 1, 0, 0.5f, 3});
        int nc = r.i(1, 3);
        for (int j = 0; j < nc; ++j) s.spec.cols.push_back(randomCol(r, 2, 2));
        bs.push_back(s);
    }
    r.shuffle(bs);
    for (auto& s : bs)
    {
        s.b = addBody(w, s.spec);
        lonely.push_back(std::make_unique<World>());
        s.alone = lonely.back().get();
        s.lone = addBody(*s.alone, s.spec);
    }
    World::Settings st;
    st.nVelocityIterations = Uint32(r.i(0, 10));
    st.nPositionIterations = Uint32(r.i(0, 4));
    st.enableWarmstarting = r.chance(0.5);
    w.updateSettings(st);
    int steps = ctx.thorough ? 60 : 20;
    Hash h;
    for (int k = 0; k < steps; ++k)
    {
        for (auto& s : bs)
        {
            if (!r.chance(0.2)) continue;
            P v0{s.b->velocity()};
            double w0 = s.b->angularVelocity();
            Vec2 J{r.f(-5, 5), r.f(-5, 5)}, at = r.chance(0.3) ? Vec2{0, 0} : Vec2{r.f(-4, 4), r.f(-4, 4)};
            float dt = r.f(0.001, 1);
            bool force = r.chance(0.4);
            Snap was{s.b};
            for (Body* b : {s.b, s.lone}) { if (force) b->applyForce(J, dt, at); else b->applyImpulse(J, at); }
            double f = force ? dt : 1;
            P ev = v0 + P{J} * (f / s.b->mass());
            double ew = w0 + ref::cross(P{at}, P{J}) * f / s.b->inertia();
            double tv = 3e-6 * (ref::norm(v0) + ref::norm(P{J}) * f / s.b->mass()), tw = 3e-6 * (std::abs(w0) + ref::norm(P{at}) * ref::norm(P{J}) * f / s.b->inertia());
            VF_CHECK(ctx, ref::norm(P{s.b->velocity()} - ev) <= tv + 1e-12, "impulse-linear", "impulse (%g %g) on mass %g: velocity (%g %g), expected (%g %g)", double(J[0]), double(J[1]), double(s.b->mass()), double(s.b->velocity()[0]), double(s.b->velocity()[1]), ev.x, ev.y);
            VF_CHECK(ctx, std::abs(s.b->angularVelocity() - ew) <= tw + 1e-12, "impulse-angular", "impulse at (%g %g): spin %g expected %g", double(at[0]), double(at[1]), double(s.b->angularVelocity()), ew);
            VF_CHECK(ctx, same(was.x, s.b->position()) && was.th == s.b->orientation(), "impulse-moves", "an impulse moved the body at once");
            ctx.count("impulses");
        }
        float dt = r.pick<float>({0.01f, 1.f / 60, 0.1f, 1.f, 0.f, -0.5f, r.f(0.0001, 0.3)});
        std::vector<Snap> before;
        for (auto& s : bs) before.push_back(Snap{s.b});
        w.step(dt);
        for (auto& l : lonely) l->step(dt);
        bool close = false; // fast bodies that end up in another's neighbourhood are not free any more
        for (size_t i = 0; i < bs.size(); ++i)
            for (size_t j = 0; j < i; ++j) close = close || ref::norm(P{bs[i].b->centroid()} - P{bs[j].b->centroid()}) < 100;
        if (close) break;
        for (size_t i = 0; i < bs.size(); ++i)
        {
            Body* b = bs[i].b;
            const Snap& o = before[i];
            VF_CHECK(ctx, same(b->velocity(), o.v) && b->angularVelocity() == o.w, "velocity-kept", "a free body went from (%.9g %.9g) w %.9g to (%.9g %.9g) w %.9g",
                     double(o.v[0]), double(o.v[1]), double(o.w), double(b->velocity()[0]), double(b->velocity()[1]), double(b->angularVelocity()));
            if (dt <= 0.f)
            {
                VF_CHECK(ctx, same(b->position(), o.x) && b->orientation() == o.th && same(b->centroid(), o.c), "no-time", "a step of %g s moved a body", double(dt));
                ctx.count("empty_steps");
                continue;
            }
            P ex = P{o.x} + P{o.v} * double(dt), ec = P{o.c} + P{o.v} * double(dt);
            double et = double(o.th) + double(o.w) * double(dt);
            double tol = 2.5e-7 * (ref::norm(ex) + ref::norm(P{o.x}) + 5) * 2;
            VF_CHECK(ctx, ref::norm(P{b->position()} - ex) <= tol, "advance", "position (%.9g %.9g), expected (%.9g %.9g) after %g s", double(b->position()[0]), double(b->position()[1]), ex.x, ex.y, double(dt));
            VF_CHECK(ctx, ref::norm(P{b->centroid()} - ec) <= 4 * tol + 1e-5, "advance-centre", "centre of mass (%.9g %.9g), expected (%.9g %.9g)", double(b->centroid()[0]), double(b->centroid()[1]), ec.x, ec.y);
            VF_CHECK(ctx, std::abs(b->orientation() - et) <= 4e-7 * (std::abs(et) + std::abs(o.th)), "turn", "orientation %.9g, expected %.9g", double(b->orientation()), et);
            VF_CHECK(ctx, Snap{b} == Snap{bs[i].lone}, "company", "body %zu moves differently next to others", i);
            ctx.count("advances");
        }
        h.add(dt).add(bs[0].b->position()[0]);
    }
    ctx.state(h);
}

// ---------------------------------------------------------------------------
namespace
{
struct CountingField : public ForceField
{
    std::map<const Collider*, int>* log;
    Vec2 acc;
    CountingField(Domain d, std::map<const Collider*, int>* l, Vec2 a) : ForceField{d}, log{l}, acc{a} {}
    void apply(Collider& c, float dt) const override
    {
        ++(*log)[&c];
        Body* b = c.body();
        b->applyImpulse(acc * dt * b->mass() / 10.f);
    }
};
} // namespace
VF_PROPERTY(B04)
{
    Rng& r = ctx.rng;
    World w;
    int n = r.i(1, 8);
    std::vector<Body*> bs;
    for (int k = 0; k < n; ++k)
    {
        BodySpec s;
        s.pos = P{k * 12.0 + r.d(-1, 1), r.d(-6, 6)};
        s.angle = r.chance(0.3) ? 0 : r.d(-7, 7);
        s.vel = P{r.d(-2, 2), r.d(-2, 2)};
        s.w = r.d(-2, 2);
        s.dominance = r.pick<float>({1, 1, 1, 0, 0.3f, 2});
        if (s.dominance == 0) s.vel = P{}, s.w = 0;
        int nc = r.i(1, 3);
        for (int j = 0; j < nc; ++j) s.cols.push_back(randomCol(r, 1.5, 1.5));
        bs.push_back(addBody(w, s));
    }
    struct F
    {
        ForceField* f;
        bool region, alive = true;
        BoundingBox box;
        int kind; // 0 gravity 1 linear 2 counting
        Vec2 v;
        std::map<const Collider*, int> log;
    };
    std::vector<std::unique_ptr<F>> fs;
    auto newField = [&] {
        auto f = std::make_unique<F>();
        f->kind = r.i(0, 2);
        f->region = f->kind != 0 && r.chance(0.6);
        f->v = Vec2{r.f(-10, 10), r.f(-10, 10)};
        ForceField::Domain d = ForceField::global();
        if (f->region)
        {
            Vec2 lo{r.f(-10, n * 12), r.f(-12, 12)};
            Vec2 hi = lo + Vec2{r.f(0, 40), r.f(0, 15)};
            if (r.chance(0.3) && !bs.empty())
            { // exactly touching a collider's box
                Body* b = r.pick(bs);
                BoundingBox bb = (*b->colliders().begin()).boundingBox();
                lo = bb.max();
                hi = lo + Vec2{2, 2};
            }
            d = ForceField::region(lo, hi);
            f->box = d.region;
        }
        if (f->kind == 0) f->f = w.makeForceField<Gravity>(f->v);
        else if (f->kind == 1) f->f = w.makeForceField<LinearField>(f->v, d);
        else f->f = w.makeForceField<CountingField>(d, &f->log, f->v);
        fs.push_back(std::move(f));
        ctx.count("fields");
    };
    int steps = ctx.thorough ? 40 : 14;
    Hash h;
    for (int k = 0; k < steps; ++k)
    {
        if (fs.size() < 5 && r.chance(0.4)) newField();
        if (!fs.empty() && r.chance(0.1))
        {
            auto& f = fs[r.next() % fs.size()];
            if (f->alive) f->f->kill(), f->alive = false, ctx.count("killed_fields");
        }
        if (r.chance(0.1) && !bs.empty())
        {
            Body* b = r.pick(bs);
            size_t nc = 0;
            for (auto& c : b->colliders()) (void)c, ++nc;
            if (nc < 5) addCol(b, randomCol(r, 1.5, 1.5));
        }
        float dt = r.pick<float>({0.01f, 0.05f, 0.f, 1.f / 60});
        struct Pred
        {
            P v;
            double w, scale;
        };
        std::vector<Pred> pred;
        bool contacts = false;
        for (auto& c : w.contacts()) (void)c, contacts = true;
        std::map<F*, std::map<const Collider*, int>> want;
        for (Body* b : bs)
        {
            Pred p{P{b->velocity()}, double(b->angularVelocity()), 0};
            for (auto& f : fs)
            {
                if (!f->alive || dt <= 0 || b->isStructural()) continue;
                bool all = true;
                P got;
                double spin = 0;
                for (const Collider& c : b->colliders())
                {
                    bool in = !f->region || boxesTouch(c.boundingBox(), f->box);
                    if (!in) { all = false; continue; }
                    auto m = moments(worldPoly(c));
                    double cm = m.area * c.material().density;
                    P arm = m.centroid - P{b->centroid()};
                    P J;
                    if (f->kind == 0) J = P{f->v} * (cm * dt);
                    if (f->kind == 1) J = P{f->v} * (cm / b->mass() * dt);
                    if (f->kind == 2)
                    {
                        want[f.get()][&c] = 1;
                        J = P{f->v} * (b->mass() * dt / 10);
                        arm = P{};
                    }
                    got = got + J;
                    spin += ref::cross(arm, J);
                    p.scale += ref::norm(J) / b->mass() + (ref::norm(arm) + 1) * ref::norm(J) / b->inertia();
                    ctx.count("covered");
                }
                if (all && f->kind == 0) got = P{f->v} * (b->mass() * dt), spin = 0, ctx.count("gravity");
                if (all && f->kind == 1) got = P{f->v} * double(dt), spin = 0, ctx.count("linear_covered");
                if (!all) ctx.count("partly_covered");
                p.v = p.v + got * (1.0 / b->mass());
                p.w += spin / b->inertia();
            }
            pred.push_back(p);
        }
        for (auto& f : fs) f->log.clear();
        w.step(dt);
        for (auto& f : fs)
        {
            if (f->kind != 2) continue;
            if (f->alive)
                VF_CHECK(ctx, f->log == want[f.get()], "covered-set", "a %s field acted on %zu colliders (%zu expected)", f->region ? "regional" : "global", f->log.size(), want[f.get()].size());
            else
                VF_CHECK(ctx, f->log.empty(), "dead-field", "a dead field still acts");
        }
        for (size_t i = 0; i < bs.size(); ++i)
        {
            Body* b = bs[i];
            if (contacts && !b->isStructural()) continue; // only pure field motion is predicted
            double tv = 1e-5 * (ref::norm(pred[i].v) + pred[i].scale + 1e-3), tw = tv + 1e-5 * std::abs(pred[i].w) + 2e-5 * pred[i].scale * 5;
            VF_CHECK(ctx, ref::norm(P{b->velocity()} - pred[i].v) <= tv, "field-velocity", "body %zu: velocity (%.8g %.8g), the fields give (%.8g %.8g)", i, double(b->velocity()[0]), double(b->velocity()[1]), pred[i].v.x, pred[i].v.y);
            VF_CHECK(ctx, std::abs(b->angularVelocity() - pred[i].w) <= tw, "field-spin", "body %zu: spin %.8g, the fields give %.8g", i, double(b->angularVelocity()), pred[i].w);
            if (b->isStructural()) ctx.count("structural_left_alone");
        }
        if (dt > 0) ctx.count("steps");
        h.add(bs[0]->velocity()[0]).add(uint64_t(fs.size()));
        // keep bodies apart and moderate
        for (size_t i = 0; i < bs.size(); ++i)
            if (!bs[i]->isStructural()) bs[i]->setVelocity(Vec2{r.f(-1, 1), r.f(-1, 1)}), bs[i]->setAngularVelocity(r.f(-2, 2));
    }
    ctx.state(h);
}

// ---------------------------------------------------------------------------
VF_PROPERTY(W05)
{
    Rng& r = ctx.rng;
    World w;
    std::vector<Tracked> ts;
    double area = r.pick<double>({3, 10, 40});
    auto newBody = [&] {
        BodySpec s;
        s.pos = P{r.d(-area, area), r.d(-area, area)};
        s.angle = r.chance(0.3) ? 0 : r.d(-7, 7);
        s.vel = P{r.d(-8, 8), r.d(-8, 8)};
        s.w = r.d(-6, 6);
        if (r.chance(0.15)) s.dominance = 0;
        Tracked t;
        t.b = addBody(w, s);
        int n = r.i(0, 3);
        for (int k = 0; k < n; ++k)
        {
            ColSpec c = randomCol(r, 2, 1.5);
            t.cols.push_back({addCol(t.b, c), c});
        }
        ts.push_back(t);
    };
    int n = r.i(0, 10);
    for (int k = 0; k < n; ++k) newBody();
    int ops = ctx.thorough ? 80 : 30;
    Hash h;
    for (int k = 0; k < ops; ++k)
    {
        size_t i = ts.empty() ? 0 : r.next() % ts.size();
        int op = ts.empty() ? 0 : r.i(0, 9);
        h.add(uint64_t(op));
        if (op <= 1 && ts.size() < 14) newBody();
        else if (op == 2 && ts[i].cols.size() < 6)
        {
            ColSpec c = randomCol(r, 2, 1.5);
            ts[i].cols.push_back({addCol(ts[i].b, c), c});
            ctx.count("colliders_added");
        }
        else if (op == 3 && !ts[i].cols.empty())
        {
            size_t j = r.next() % ts[i].cols.size();
            ts[i].b->removeCollider(ts[i].cols[j].first);
            ts[i].cols.erase(ts[i].cols.begin() + long(j));
            ctx.count("colliders_removed");
        }
        else if (op == 4)
        {
            ts[i].b->kill();
            w.step(0.f);
            ts.erase(ts.begin() + long(i));
            ctx.count("bodies_removed");
        }
        else if (op == 5 && r.chance(0.1))
        {
            w.clear();
            ts.clear();
            ctx.count("cleared");
        }
        else
        {
            w.step(r.f(0.001, 0.1));
            ctx.count("steps");
        }
        for (int q = 0; q < 4; ++q)
        {
            bool point = r.chance(0.4);
            Vec2 a{r.f(-1.3 * area, 1.3 * area), r.f(-1.3 * area, 1.3 * area)};
            BoundingBox box{a, a + Vec2{r.f(0, area), r.f(0, area)}};
            if (r.chance(0.3) && !ts.empty() && !ts[r.next() % ts.size()].cols.empty())
            { // exactly at the border of some collider
                for (auto& t : ts)
                    for (auto& c : t.cols)
                        if (r.chance(0.3))
                        {
                            auto bb = c.first->boundingBox();
                            a = r.chance(0.5) ? bb.max() : bb.min();
                            box = r.chance(0.5) ? BoundingBox{a, a + Vec2{1, 1}} : BoundingBox{a - Vec2{1, 1}, a};
                        }
            }
            std::map<Body*, int> want, got;
            size_t nw = 0;
            for (auto& t : ts)
                for (auto& c : t.cols)
                {
                    BoundingBox bb = c.first->boundingBox();
                    if (point ? boxHas(bb, a) : boxesTouch(bb, box)) ++want[t.b], ++nw;
                }
            auto visit = [&](Body* b) { ++got[b]; };
            if (point) w.forEachAt(a, visit);
            else w.forEachIn(box, visit);
            VF_CHECK(ctx, got == want, "query", "%s query visited %zu bodies, %zu expected (after operation %d)", point ? "point" : "region", got.size(), want.size(), op);
            ctx.count(nw ? "hit_queries" : "empty_queries");
        }
    }
    ctx.state(h);
}
