// Contacts: what they report (C05), what they exchange (C06), what comes of it (C07, C08), and
// the materials they combine (W10).
#include "world_kit.hpp"

using namespace wk;

namespace
{
struct Seen
{
    bool here = false, fresh = false;
    Collider const* col[2];
    ContactInfo info{};
    Poly shape[2];
    double gap = 0; // > 0 apart, < 0 depth
};
// follows every contact of a world: what it says after each refresh
struct Follow
{
    std::map<ContactConstraint*, Seen> seen; // of the current step
    std::map<std::pair<const Collider*, const Collider*>, int> before;
    std::function<void(WatchedContact&, Seen&)> then;
    void attach(World& w)
    {
        w.setContactFactory(watching([this](WatchedContact& c) {
            Seen s;
            s.here = true;
            s.info = c.contactInfo();
            s.col[0] = c.colliders()[0];
            s.col[1] = c.colliders()[1];
            for (int k = 0; k < 2; ++k) s.shape[k] = ref::hull(worldPoly(*s.col[k]));
            s.gap = ref::gap(s.shape[0], s.shape[1]);
            auto key = std::pair{s.col[0], s.col[1]};
            auto b = before.find(key);
            s.fresh = b == before.end() || b->second == 0;
            before[key] = int(s.info.nContacts);
            if (then) then(c, s);
            seen[&c] = s;
        }));
    }
};
double minPenOf(const Seen& s) { return double(CombinableProperty(s.col[0]->material().penetration, s.col[1]->material().penetration).value); }

// a pair of shapes at a chosen distance (negative: depth) of each other
struct PairSpec
{
    BodySpec b[2];
    double start;
};
double alongGap(const Poly& a, const Poly& b, P dir)
{
    double hi = -1e300, lo = 1e300;
    for (P p : a) hi = std::max(hi, ref::dot(p, dir));
    for (P p : b) lo = std::min(lo, ref::dot(p, dir));
    return lo - hi;
}
Poly placed(const BodySpec& b)
{
    // the place of a body of one collider
    P c = moments(b.cols[0].poly).centroid;
    Poly out;
    for (P p : b.cols[0].poly) out.push_back(b.pos + c + rot(p - c, b.angle));
    return ref::hull(out);
}
void setGap(PairSpec& s, double wanted, Rng& r)
{
    P dir = rot(P{1, 0}, r.d(-PI, PI));
    s.start = wanted;
    double at = 8;
    // walk b[1] towards b[0] along dir until the gap is as wanted
    P base = s.b[1].pos;
    double lo = 0, hi = at;
    for (int k = 0; k < 40; ++k)
    {
        double mid = (lo + hi) / 2;
        s.b[1].pos = base + dir * mid;
        if (ref::gap(placed(s.b[0]), placed(s.b[1])) > wanted) hi = mid;
        else lo = mid;
    }
    s.b[1].pos = base + dir * hi;
}
PairSpec pairSpec(Rng& r, double wanted)
{
    PairSpec s;
    for (int k = 0; k < 2; ++k)
    {
        BodySpec& b = s.b[k];
        b.pos = P{r.d(-3, 3), r.d(-3, 3)};
        if (k == 1) b.pos = s.b[0].pos;
        b.angle = r.chance(0.3) ? 0 : r.chance(0.3) ? PI / 2 * r.i(-2, 2) : r.d(-3, 3);
        ColSpec c{shape(r, r.d(0.6, 2.5))};
        c.mat.density = r.logf_(0.3, 10);
        b.cols = {c};
        b.w = r.chance(0.3) ? 0 : r.d(-2, 2);
        b.vel = P{r.d(-1, 1), r.d(-1, 1)};
    }
    if (r.chance(0.25)) s.b[1].angle = s.b[0].angle, s.b[1].w = s.b[0].w = 0; // faces against faces
    setGap(s, wanted, r);
    P towards = s.b[1].pos - s.b[0].pos;
    double n = ref::norm(towards);
    if (n > 1e-3 && r.chance(0.8))
    {
        double v = r.d(0, 3);
        s.b[0].vel = s.b[0].vel + towards * (v / n / 2);
        s.b[1].vel = s.b[1].vel - towards * (v / n / 2);
    }
    if (r.chance(0.2))
    {
        s.b[r.i(0, 1)].dominance = 0;
    }
    return s;
}
} // namespace

// ---------------------------------------------------------------------------
// C05
namespace
{
void judgeInfo(Ctx& ctx, const Seen& s)
{
    const auto& i = s.info;
    double pen = minPenOf(s);
    double size = std::max(ref::diameter(s.shape[0]), ref::diameter(s.shape[1]));
    double eps = 2e-5 * (1 + std::max(ref::extent(s.shape[0]), ref::extent(s.shape[1])));
    VF_CHECK(ctx, i.nContacts <= 2, "too-many", "%u contact points", unsigned(i.nContacts));
    if (s.gap > std::sqrt(2.0) * pen + eps)
    {
        ctx.count("apart");
        VF_CHECK(ctx, i.nContacts == 0, "contact-without-touching", "shapes %g apart (tolerated penetration %g) have %u contact points", s.gap, pen, unsigned(i.nContacts));
    }
    if (s.fresh && s.gap > -pen + eps)
        VF_CHECK(ctx, i.nContacts == 0, "contact-too-early", "shapes that do not overlap more than the tolerated penetration %g (gap %g) have %u new contact points", pen, s.gap, unsigned(i.nContacts));
    if (s.gap < -pen - eps)
    {
        ctx.count("overlapping");
        if (i.nContacts == 0)
            for (int b = 0; b < 2; ++b)
                for (P p : s.shape[b]) ctx.log("shape %d: %.9g %.9g", b, p.x, p.y);
        VF_CHECK(ctx, i.nContacts > 0, "overlap-without-contact", "shapes overlapping by %g (tolerated penetration %g) have no contact point", -s.gap, pen);
    }
    if (i.nContacts == 0) return;
    ctx.count(i.nContacts == 2 ? "two_points" : "one_point");
    ctx.count(s.fresh ? "new_contacts" : "kept_contacts");
    P n{i.normal};
    VF_CHECK(ctx, std::abs(ref::norm(n) - 1) < 1e-4, "normal-length", "contact normal (%g %g) of length %g", n.x, n.y, ref::norm(n));
    for (unsigned k = 0; k < i.nContacts; ++k)
    {
        P q[2] = {P{i.incContacts[k]}, P{i.refContacts[k]}};
        for (int b = 0; b < 2; ++b)
        {
            double own = std::abs(ref::signedDistance(s.shape[b], q[b]));
            double other = ref::signedDistance(s.shape[1 - b], q[b]);
            ctx.max("own", own);
            double rel = (other - eps) / std::max(-s.gap, pen);
            ctx.max(s.fresh ? "away_new" : "away_kept", rel);
            VF_CHECK(ctx, rel < 10, "point-away", "contact point (%g %g) of %s shape is %g away from the other, which it overlaps by %g (tolerated %g)", q[b].x, q[b].y, b == 0 ? "the first" : "the second", other, -s.gap, pen);
            VF_CHECK(ctx, own < eps, "point-off-boundary", "contact point (%g %g) of %s shape is %g away from its boundary", q[b].x, q[b].y, b == 0 ? "the first" : "the second", own);
        }
    }
    double depth = -s.gap;
    if (s.fresh)
    {
        Poly away = s.shape[0];
        for (P& p : away) p = p + n * (depth + 1e-4);
        double g = ref::gap(away, s.shape[1]);
        VF_CHECK(ctx, g > -2e-4 * (1 + size) - 0.002 * depth, "normal-does-not-separate", "moving the first shape by the depth %g along the new normal (%g %g) leaves an overlap of %g", depth, n.x, n.y, -g);
    }
    else if (depth > pen / 2)
    {
        Poly away = s.shape[0];
        for (P& p : away) p = p + n * depth;
        double g = ref::gap(away, s.shape[1]);
        ctx.max("left_kept", -g / depth);
        VF_CHECK(ctx, -g < 1.05 * depth, "normal-pulls", "moving the first shape by the depth %g along the kept normal (%g %g) leaves an overlap of %g", depth, n.x, n.y, -g);
    }
}
} // namespace

VF_PROPERTY(C05)
{
    Rng& r = ctx.rng;
    double pen = r.chance(0.4) ? 0.005 : r.logf_(0.001, 0.05);
    PairSpec s = pairSpec(r, r.chance(0.6) ? r.d(-0.2, 0.05) : r.d(-3 * pen, 3 * pen));
    for (auto& b : s.b) b.cols[0].mat.penetration.value = float(pen);
    World w;
    Follow f;
    Hash h;
    f.then = [&](WatchedContact&, Seen& c) {
        judgeInfo(ctx, c);
        h.add(c.gap).add(uint64_t(c.info.nContacts));
    };
    f.attach(w);
    if (r.chance(0.3)) w.makeForceField<Gravity>(Vec2{r.f(-5, 5), r.f(-5, 5)});
    std::vector<Body*> b{addBody(w, s.b[0]), addBody(w, s.b[1])};
    if (r.chance(0.25)) // a crowd around them
        for (int k = r.i(1, 4); k > 0; --k)
        {
            BodySpec o;
            o.pos = s.b[0].pos + P{r.d(-2, 2), r.d(-2, 2)};
            o.angle = r.d(-3, 3);
            o.w = r.d(-2, 2);
            for (int c = r.i(1, 2); c > 0; --c)
            {
                ColSpec col{shape(r, r.d(0.6, 1.6), P{r.d(-.5, .5), r.d(-.5, .5)})};
                col.mat.penetration.value = float(pen);
                o.cols.push_back(col);
            }
            b.push_back(addBody(w, o));
        }
    int steps = r.i(2, 60);
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.002, 0.03);
    for (int k = 0; k < steps; ++k)
    {
        w.step(dt);
        ctx.count("steps");
        if (!f.seen.empty()) ctx.count("contact_steps");
        f.seen.clear();
        if (r.chance(0.03)) b[size_t(r.i(0, 1))]->applyImpulse(Vec2{r.f(-1, 1), r.f(-1, 1)}, Vec2{r.f(-.5, .5), r.f(-.5, .5)});
    }
    ctx.state(h);
}

// ---------------------------------------------------------------------------
// one contact alone between two bodies: everything it exchanged in a step is seen
namespace
{
struct Before
{
    P v[2], c[2];
    double w[2], m[2], I[2];
    bool fixed[2];
};
Before beforeOf(Body* b[2])
{
    Before x;
    for (int k = 0; k < 2; ++k)
    {
        x.v[k] = P{b[k]->velocity()};
        x.c[k] = P{b[k]->centroid()};
        x.w[k] = b[k]->angularVelocity();
        x.m[k] = b[k]->mass();
        x.I[k] = b[k]->inertia();
        x.fixed[k] = b[k]->dominance() == 0;
    }
    return x;
}
// what one contact did in one step, seen from the first body named
struct Deed
{
    unsigned n = 0;
    P normal, J;         // impulse on the first body
    double Jn = 0, Jt = 0, arm = 0;
    double pre[2]{}, post[2]{}; // normal velocity at the points, > 0: leaving
    double slidePre[2]{}, slidePost[2]{};
    double scale = 0, energyBefore = 0, energyAfter = 0;
};
Deed deedOf(const Seen& s, const Before& x, Body* b[2], P drive)
{
    // drive: velocity change of movable bodies by fields in this step
    Deed d;
    d.n = unsigned(s.info.nContacts);
    d.normal = P{s.info.normal};
    P t = perp(d.normal);
    int first = s.col[0]->body() == b[0] ? 0 : 1;
    P v0[2], v1[2];
    double w0[2], w1[2];
    P at[2];
    for (int k = 0; k < 2; ++k)
    {
        int i = k == 0 ? first : 1 - first;
        v0[k] = x.v[i] + (x.fixed[i] ? P{} : drive);
        v1[k] = P{b[i]->velocity()};
        w0[k] = x.w[i];
        w1[k] = b[i]->angularVelocity();
        at[k] = x.c[i];
        d.scale = std::max({d.scale, ref::norm(v0[k]) + std::abs(w0[k]) * 2, ref::norm(v1[k]) + std::abs(w1[k]) * 2});
        if (!x.fixed[i])
        {
            d.energyBefore += (x.m[i] * ref::dot(v0[k], v0[k]) + x.I[i] * w0[k] * w0[k]) / 2;
            d.energyAfter += (x.m[i] * ref::dot(v1[k], v1[k]) + x.I[i] * w1[k] * w1[k]) / 2;
        }
    }
    int i = first;
    if (!x.fixed[i]) d.J = (v1[0] - v0[0]) * x.m[i];
    else d.J = (v1[1] - v0[1]) * -x.m[1 - i];
    d.Jn = ref::dot(d.J, d.normal);
    d.Jt = ref::dot(d.J, t);
    for (unsigned c = 0; c < d.n; ++c)
    {
        P q[2] = {P{s.info.incContacts[c]}, P{s.info.refContacts[c]}};
        auto rel = [&](P* v, double* w) { return v[0] + perp(q[0] - at[0]) * w[0] - v[1] - perp(q[1] - at[1]) * w[1]; };
        P a = rel(v0, w0), z = rel(v1, w1);
        d.pre[c] = ref::dot(a, d.normal);
        d.post[c] = ref::dot(z, d.normal);
        d.slidePre[c] = ref::dot(a, t);
        d.slidePost[c] = ref::dot(z, t);
    }
    return d;
}
struct Pairing
{
    PairSpec spec;
    double bounce = 0, friction = 0;
    World w;
    Follow f;
    Body* b[2];
    P gravity;
    explicit Pairing(const PairSpec& s, double e, double mu, P g = P{}) : spec{s}, bounce{e}, friction{mu}, gravity{g}
    {
        for (auto& k : spec.b)
        {
            k.cols[0].mat.bounciness = CombinableProperty{float(e)};
            k.cols[0].mat.friction = CombinableProperty{float(mu)};
        }
        f.attach(w);
        if (g.x != 0 || g.y != 0) w.makeForceField<Gravity>(ref::v2(g));
        for (int k = 0; k < 2; ++k) b[k] = addBody(w, spec.b[k]);
    }
    // whether a contact acted
    bool step(float dt, Deed& d)
    {
        Before x = beforeOf(b);
        f.seen.clear();
        w.step(dt);
        if (f.seen.size() != 1) return false;
        const Seen& s = f.seen.begin()->second;
        d = deedOf(s, x, b, gravity * double(dt));
        return d.n > 0;
    }
};

double pairMass(const Pairing& p)
{
    auto inv = [&](int k) { return p.b[k]->dominance() == 0 ? 0.0 : 1 / double(p.b[k]->mass()); };
    return 1 / (inv(0) + inv(1));
}
void restStructural(PairSpec& s)
{
    for (auto& b : s.b)
        if (b.dominance == 0) b.vel = P{}, b.w = 0;
}

} // namespace

// ---------------------------------------------------------------------------
// C06
namespace
{
void frictionPair(Ctx& ctx)
{
    Rng& r = ctx.rng;
    double mu = r.chance(0.2) ? 0 : r.chance(0.8) ? r.d(0.02, 0.6) : r.d(0.6, 1.2), e = r.chance(0.5) ? 0 : r.d(0, 1);
    P g = r.chance(0.5) ? P{} : P{r.d(-8, 8), r.d(-8, 8)};
    Pairing p{pairSpec(r, r.d(-0.03, 0.03)), e, mu, g};
    World::Settings set{};
    set.enableWarmstarting = r.chance(0.7);
    p.w.updateSettings(set);
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.002, 0.03);
    int steps = r.i(4, 60);
    Hash h;
    double load = 0, excess = 0, slidLoad = 0, unused = 0, wrong = 0;
    for (int k = 0; k < steps; ++k)
    {
        Deed d;
        if (!p.step(dt, d)) continue;
        double m = pairMass(p), tol = 3e-5 * m * (1 + d.scale);
        ctx.count("contact_steps");
        ctx.log("step %d: %u points, Jn %g Jt %g (mu %g), pre %g %g, post %g %g, slide %g %g -> %g %g", k, d.n, d.Jn, d.Jt, mu, d.pre[0], d.pre[1], d.post[0], d.post[1], d.slidePre[0], d.slidePre[1], d.slidePost[0], d.slidePost[1]);
        VF_CHECK(ctx, d.Jn > -tol, "pull", "a contact of %u points exchanges a normal impulse %g", d.n, d.Jn);
        h.add(d.Jt).add(d.Jn);
        if (mu == 0)
        {
            ctx.count("frictionless");
            VF_CHECK(ctx, std::abs(d.Jt) <= tol, "friction-from-nowhere", "a frictionless contact of %u points exchanges a tangential impulse %g (normal %g)", d.n, d.Jt, d.Jn);
            continue;
        }
        if (d.Jn * mu < 10 * tol) { ctx.count("unloaded"); continue; }
        double jt = std::abs(d.Jt);
        load += mu * d.Jn;
        excess += std::max(0.0, jt - tol - mu * d.Jn);
        // by far not stopped
        bool slides = d.n == 1 && std::abs(d.slidePost[0]) > 0.01 * (0.1 + d.scale) && std::abs(d.slidePost[0]) > 0.3 * (std::abs(d.slidePre[0]) + std::abs(d.pre[0]));
        if (!slides) { ctx.count("sticks"); continue; }
        ctx.count("slides");
        slidLoad += mu * d.Jn;
        unused += std::max(0.0, mu * d.Jn - jt - tol);
        if (d.Jt * d.slidePost[0] > 0) wrong += std::max(0.0, jt - tol);
    }
    ctx.state(h);
    if (load == 0) return;
    // the bound of an iteration is the normal impulse of the one before
    if (mu >= 0.6) { ctx.count("rough_not_judged"); return; }
    double lag = 0.2;
    ctx.max("excess", excess / load);
    VF_CHECK(ctx, excess <= lag * load, "outside-the-cone", "friction exceeds its bound by %g over a history in which the bound sums to %g (coefficient %g)", excess, load, mu);
    if (slidLoad == 0) return;
    ctx.max("unused", unused / slidLoad);
    ctx.max("wrong", wrong / slidLoad);
    VF_CHECK(ctx, unused <= lag * slidLoad, "sliding-without-friction", "while sliding, friction stays below its bound by %g over a history in which the bound sums to %g (coefficient %g)", unused, slidLoad, mu);
    VF_CHECK(ctx, wrong <= lag * slidLoad, "friction-speeds-up", "friction pushes %g along the sliding it should oppose, over a history in which the bound sums to %g (coefficient %g)", wrong, slidLoad, mu);
}
// a box on a structural incline
void incline(Ctx& ctx)
{
    Rng& r = ctx.rng;
    double slope = r.d(0.08, 0.6), G = r.d(3, 12), turned = r.d(-PI, PI);
    bool stays = r.chance(0.5);
    double mu = std::tan(slope) * (stays ? r.d(1.15, 2) : r.chance(0.2) ? 0 : r.d(0.2, 0.85));
    int side = r.chance(0.5) ? 1 : -1;
    double ang = side * slope;
    World w;
    P up = rot(P{0, 1}, turned);
    w.makeForceField<Gravity>(ref::v2(up * -G));
    BodySpec ground, box;
    ground.dominance = 0;
    ground.angle = ang + turned;
    ground.cols = {ColSpec{ref::boxPoly(60, 2, P{}, 0)}};
    double hgt = r.d(0.4, 1), wid = hgt * r.d(1.6, 3);
    box.angle = ang + turned + (r.chance(0.5) ? 0 : PI);
    P n = rot(P{0, 1}, ang + turned);
    P center = n * (1 + hgt / 2 - 0.004);
    box.cols = {ColSpec{ref::boxPoly(wid, hgt, P{}, 0)}};
    box.cols[0].mat.density = r.logf_(0.3, 10);
    box.pos = center;
    for (auto* b : {&ground, &box}) b->cols[0].mat.friction.value = float(mu);
    Body *a, *b;
    if (r.chance(0.5)) a = addBody(w, ground), b = addBody(w, box);
    else b = addBody(w, box), a = addBody(w, ground);
    P down = rot(P{side > 0 ? -1.0 : 1.0, 0}, ang + turned);
    float dt = 1 / 60.f;
    int steps = r.i(40, 100);
    for (int k = 0; k < steps; ++k) w.step(dt);
    double t = steps * double(dt), v = ref::dot(P{b->velocity()}, down), went = ref::dot(P{b->centroid()} - center, down);
    double want = stays ? 0 : G * (std::sin(slope) - mu * std::cos(slope));
    ctx.log("slope %g mu %g stays %d: speed %g wanted %g, went %g, spin %g", slope, mu, int(stays), v, want * t, went, double(b->angularVelocity()));
    ctx.count(stays ? "incline_stays" : "incline_slides");
    ctx.max(stays ? "creep" : "slide_error", stays ? std::abs(went) : std::abs(v - want * t) / (want * t));
    VF_CHECK(ctx, std::abs(v - want * t) <= 0.1 * want * t + 0.02, "incline", "a box on a slope of %g with friction %g (limit %g) moves down at %g after %g s, expected %g", slope, mu, std::tan(slope), v, t, want * t);
    if (stays) VF_CHECK(ctx, std::abs(went) < 0.05, "creeps", "a box on a slope of %g below the friction angle (%g, limit %g) went %g in %g s", slope, mu, std::tan(slope), went, t);
    ctx.state(Hash{}.add(v).add(went));
    (void) a;
}
} // namespace

VF_PROPERTY(C06)
{
    if (ctx.rng.chance(0.85)) frictionPair(ctx);
    else incline(ctx);
}

// C07
namespace
{
void responsePair(Ctx& ctx)
{
    Rng& r = ctx.rng;
    double mu = r.chance(0.4) ? 0 : r.d(0.02, 1.2), e = r.chance(0.3) ? 0 : r.chance(0.2) ? 1 : r.d(0, 1);
    P g = r.chance(0.5) ? P{} : P{r.d(-8, 8), r.d(-8, 8)};
    Pairing p{pairSpec(r, r.d(-0.03, 0.03)), e, mu, g};
    World::Settings set{};
    set.enableWarmstarting = r.chance(0.7);
    set.nVelocityIterations = unsigned(r.chance(0.5) ? 8 : r.i(1, 20));
    p.w.updateSettings(set);
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.002, 0.03);
    int steps = r.i(4, 60);
    Hash h;
    for (int k = 0; k < steps; ++k)
    {
        Deed d;
        if (!p.step(dt, d)) continue;
        double m = pairMass(p);
        ctx.count("contact_steps");
        bool ambiguous = false, leaving = true;
        double want[2];
        for (unsigned c = 0; c < d.n; ++c)
        {
            want[c] = d.pre[c] < -1 ? -e * d.pre[c] : 0;
            if (std::abs(d.pre[c] + 1) < 1e-4 * (1 + d.scale)) ambiguous = true;
        }
        if (ambiguous) { ctx.count("undecided"); continue; }
        ctx.log("step %d: %u points, Jn %g Jt %g, pre %g %g, post %g %g, expected %g %g", k, d.n, d.Jn, d.Jt, d.pre[0], d.pre[1], d.post[0], d.post[1], want[0], want[1]);
        double tol = (d.n == 1 ? 2e-4 : 2e-3) * (1 + d.scale);
        for (unsigned c = 0; c < d.n; ++c)
        {
            if (want[c] > 0) ctx.count("bounces");
            VF_CHECK(ctx, d.post[c] > want[c] - tol, want[c] > 0 ? "bounce-short" : "keeps-approaching", "point %u of %u approached at %g and has %g afterwards, expected at least %g (bounciness %g)", c, d.n, -d.pre[c], d.post[c], want[c], e);
            if (d.post[c] < want[c] + tol) leaving = false;
        }
        if (leaving) ctx.count("let_go");
        else ctx.count("pushed");
        // pushes no more than it takes
        VF_CHECK(ctx, !leaving || d.Jn / m < tol, "pushes-too-hard", "a contact pushes by %g although every point leaves faster than it has to (%g %g instead of %g %g)", d.Jn, d.post[0], d.post[1], want[0], want[1]);
        h.add(d.Jn);
    }
    ctx.state(h);
}
void headOn(Ctx& ctx)
{
    // two bodies on one line through both centres, the contact on it
    Rng& r = ctx.rng;
    double e[2] = {r.d(0, 1), r.d(0, 1)};
    double bounce = (e[0] + e[1]) / 2;
    if (r.chance(0.2)) bounce = e[0] = e[1] = r.chance(0.5);
    double turned = r.d(-PI, PI), mu = r.chance(0.5) ? 0 : r.d(0, 1);
    P line = rot(P{1, 0}, turned);
    World w;
    BodySpec s[2];
    double half[2];
    P mid{r.d(-5, 5), r.d(-5, 5)};
    double gap = r.d(0.02, 0.3);
    for (int k = 0; k < 2; ++k)
    {
        half[k] = r.d(0.2, 0.8);
        bool box = k == 0 || r.chance(0.5);
        Poly p = box ? ref::boxPoly(2 * half[k], r.d(0.5, 1.5), P{}, 0) : Poly{P{half[k], 0}, P{0, half[k]}, P{-half[k], 0}, P{0, -half[k]}};
        s[k].cols = {ColSpec{p}};
        s[k].cols[0].mat.density = r.logf_(0.2, 10);
        s[k].cols[0].mat.bounciness.value = float(e[k]);
        s[k].cols[0].mat.friction.value = float(mu);
        s[k].angle = turned;
        s[k].pos = mid + line * ((k ? 1 : -1) * (half[k] + gap / 2));
    }
    double approach = r.chance(0.3) ? r.d(0.2, 0.95) : r.d(1.05, 8), drift = r.d(-2, 2), share = r.d(0, 1);
    s[0].vel = line * (drift + approach * share);
    s[1].vel = line * (drift - approach * (1 - share));
    int fixed = r.i(0, 5);
    if (fixed < 2) s[fixed].dominance = 0;
    Body* b[2];
    int first = r.i(0, 1);
    b[first] = addBody(w, s[first]);
    b[1 - first] = addBody(w, s[1 - first]);
    // energy seen from the structural body, if any
    P frame = fixed < 2 ? s[fixed].vel : P{};
    auto energy = [&] {
        double t = 0;
        for (int k = 0; k < 2; ++k)
            if (k != fixed) t += (double(b[k]->mass()) * std::pow(ref::norm(P{b[k]->velocity()} - frame), 2) + double(b[k]->inertia()) * std::pow(double(b[k]->angularVelocity()), 2)) / 2;
        return t;
    };
    double E0 = energy();
    float dt = r.chance(0.6) ? 1 / 60.f : r.f(0.004, 0.02);
    for (int k = 0; k < int((gap + 0.006) / approach / double(dt)) + 6; ++k) w.step(dt);
    double apart = ref::dot(P{b[1]->velocity()} - P{b[0]->velocity()}, line);
    double want = approach > 1 ? bounce * approach : 0;
    ctx.count(approach > 1 ? "head_on" : "head_on_slow");
    ctx.max("head_on_error", std::abs(apart - want) / approach);
    VF_CHECK(ctx, std::abs(apart - want) < 0.01 * approach, "restitution", "a head-on impact at %g with bounciness %g and %g (structural %d) leaves the bodies separating at %g, expected %g", approach, e[0], e[1], fixed, apart, want);
    double E1 = energy();
    VF_CHECK(ctx, E1 <= E0 * 1.001, "head-on-energy", "a head-on impact at %g with bounciness %g and %g raises the kinetic energy from %g to %g", approach, e[0], e[1], E0, E1);
    if (bounce == 1 && approach > 1) VF_CHECK(ctx, E1 > E0 * 0.999, "head-on-energy-lost", "a perfectly bouncy head-on impact at %g lowers the kinetic energy from %g to %g", approach, E0, E1);
    ctx.state(Hash{}.add(apart));
}
// bodies coming to rest
void settle(Ctx& ctx)
{
    Rng& r = ctx.rng;
    int kind = r.i(0, 2); // any shape dropped, a box at rest, a stack
    World w;
    double G = r.d(5, 12), turned = r.chance(0.5) ? 0 : r.d(-PI, PI);
    P up = rot(P{0, 1}, turned), side = rot(P{1, 0}, turned);
    w.makeForceField<Gravity>(ref::v2(up * -G));
    double pen = r.chance(0.5) ? 0.005 : r.d(0.002, 0.02);
    auto mat = [&](BodySpec& b) {
        b.cols[0].mat.penetration.value = float(pen);
        b.cols[0].mat.friction.value = r.f(0.4, 0.8);
    };
    BodySpec ground;
    ground.dominance = 0;
    ground.angle = turned;
    ground.pos = up * -1;
    ground.cols = {ColSpec{ref::boxPoly(80, 2, P{}, 0)}};
    mat(ground);
    Body* floor = addBody(w, ground);
    std::vector<BodySpec> specs;
    int n = kind == 2 ? r.i(2, 5) : 1;
    double at = 0, density = r.logf_(0.3, 10);
    double wid = r.d(0.8, 1.5);
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        double hgt = r.d(0.4, 0.8);
        if (kind == 0)
        {
            b.cols = {ColSpec{shape(r, r.d(0.6, 1.5))}};
            b.angle = r.d(-PI, PI);
            P c = moments(b.cols[0].poly).centroid;
            b.pos = up * r.d(1, 3) - c;
            b.vel = up * r.d(-3, 0) + side * r.d(-1, 1);
            b.w = r.d(-2, 2);
        }
        else
        {
            b.cols = {ColSpec{ref::boxPoly(wid, hgt, P{}, 0)}};
            b.angle = turned + (r.chance(0.5) ? 0 : PI);
            b.pos = up * (at + hgt / 2 + (r.chance(0.5) ? 0.0 : r.d(0, 0.01))) + side * (kind == 2 && k > 0 ? r.d(-0.1, 0.1) : 0);
            at += hgt;
        }
        mat(b);
        b.cols[0].mat.density = float(density * r.d(0.8, 1.25));
        specs.push_back(b);
    }
    std::vector<Body*> bs;
    for (auto& b : specs) bs.push_back(addBody(w, b));
    std::vector<P> start;
    for (Body* b : bs) start.push_back(P{b->centroid()});
    float dt = 1 / 60.f;
    int steps = kind == 0 ? 240 : r.i(120, 300);
    double deepest = 0, late = 0;
    int longest = 0;
    std::map<Body*, int> deep;
    for (int k = 0; k < steps; ++k)
    {
        w.step(dt);
        for (Body* b : bs)
        {
            double g = ref::gap(ref::hull(worldPoly(*b->colliders().begin())), ref::hull(worldPoly(*floor->colliders().begin())));
            deepest = std::max(deepest, -g);
            if (k > 120) late = std::max(late, -g / pen);
            longest = std::max(longest, deep[b] = -g > 4 * pen ? deep[b] + 1 : 0);
            if (-g > 3 * pen) ctx.log("step %d: depth %g at (%g %g) %g moving (%g %g) %g", k, -g, double(b->centroid()[0]), double(b->centroid()[1]), double(b->orientation()), double(b->velocity()[0]), double(b->velocity()[1]), double(b->angularVelocity()));
        }
    }
    const char* names[] = {"dropped", "resting", "stacked"};
    ctx.count(names[kind]);
    ctx.max((std::string(names[kind]) + "_late").c_str(), late);
    ctx.max((std::string(names[kind]) + "_deepest").c_str(), deepest);
    double moved = 0;
    for (size_t k = 0; k < bs.size(); ++k) moved = std::max(moved, ref::norm(P{bs[k]->centroid()} - start[k]));
    if (kind) ctx.max((std::string(names[kind]) + "_moved").c_str(), moved);
    ctx.log("%s: deepest %g, late %g of tolerated, moved %g", names[kind], deepest, late, moved);
    ctx.state(Hash{}.add(moved).add(late));
    ctx.max("longest_deep", longest);
    VF_CHECK(ctx, longest <= 25, "sinks", "a %s body overlaps the floor by more than 4 times the tolerated penetration (%g) for %d steps", names[kind], pen, longest);
    VF_CHECK(ctx, kind == 0 || late <= 4, "sinks", "a %s body still overlaps the floor by %g times the tolerated penetration (%g) after two seconds", names[kind], late, pen);
    VF_CHECK(ctx, ref::dot(P{bs[0]->centroid()}, up) > 0, "passes-through", "a %s body went through the floor", names[kind]);
    if (kind == 1) VF_CHECK(ctx, moved < 0.05, "does-not-rest", "a box put on a floor moved by %g in %g s", moved, steps * double(dt));
    if (kind == 2) VF_CHECK(ctx, moved < 0.3, "does-not-stack", "a stack of %d boxes has one moved by %g in %g s", n, moved, steps * double(dt));
}
} // namespace
VF_PROPERTY(C07)
{
    double k = ctx.rng.d(0, 1);
    if (k < 0.8) responsePair(ctx);
    else if (k < 0.97) headOn(ctx);
    else settle(ctx);
}
// C08
namespace
{
void energyPair(Ctx& ctx)
{
    Rng& r = ctx.rng;
    double mu = r.chance(0.4) ? 0 : r.d(0.02, 1.2), e = r.chance(0.3) ? 0 : r.chance(0.4) ? 1 : r.d(0, 1);
    PairSpec s = pairSpec(r, r.d(-0.03, 0.03));
    // what a structural body carries along gains energy
    restStructural(s);
    Pairing p{s, e, mu};
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.002, 0.03);
    int steps = r.i(4, 60);
    Hash h;
    for (int k = 0; k < steps; ++k)
    {
        Deed d;
        if (!p.step(dt, d)) continue;
        ctx.count("contact_steps");
        double gain = (d.energyAfter - d.energyBefore) / (d.energyBefore + (mu > 0 ? 1e-2 : 1e-3));
        ctx.log("step %d: gain %g: %u points, Jn %g Jt %g pre %g %g post %g %g", k, gain, d.n, d.Jn, d.Jt, d.pre[0], d.pre[1], d.post[0], d.post[1]);
        bool elastic = mu == 0 && e == 1 && d.n == 1 && d.pre[0] < -1.001;
        const char* kind = e == 0 ? "inelastic" : mu == 0 ? "smooth" : "rough";
        ctx.count(kind);
        ctx.max((std::string("gain_") + kind).c_str(), e != 0 && mu != 0 ? gain / (mu * e) : gain);
        // bounces of rough bodies take their speed from what friction left (Newton's law)
        double tol = e == 0 ? (mu == 0 ? 1e-3 : 0.04) : mu == 0 ? (d.n == 1 ? 1e-3 : 0.05 + 0.4 * e) : 0.1 + 4 * mu * e;
        VF_CHECK(ctx, gain <= tol, "gains", "a %s contact of %u points (bounciness %g, friction %g) raises the kinetic energy from %g to %g", kind, d.n, e, mu, d.energyBefore, d.energyAfter);
        if (elastic)
        {
            ctx.count("elastic");
            VF_CHECK(ctx, gain > -1e-3, "elastic-loses", "a perfectly bouncy frictionless impact at %g lowers the kinetic energy from %g to %g", -d.pre[0], d.energyBefore, d.energyAfter);
        }
        h.add(gain);
    }
    ctx.state(h);
}
// groups left alone
void energyGroup(Ctx& ctx)
{
    Rng& r = ctx.rng;
    SceneOptions o;
    o.maxBodies = 6;
    o.loops = r.chance(0.3);
    o.structural = r.chance(0.3);
    o.speed = r.d(0.2, 2);
    o.massRatio = r.chance(0.5) ? 2 : 10;
    bool contacts = r.chance(0.3);
    if (contacts) o.spacing = 1.2, o.disableContacts = false;
    Scene s = jointedScene(r, o);
    if (contacts && r.chance(0.5)) s.joints.clear();
    for (auto& b : s.bodies)
    {
        if (b.dominance == 0) b.vel = P{}, b.w = 0;
        for (auto& c : b.cols) c.mat.friction.value = r.chance(0.5) ? 0 : r.f(0, 0.8), c.mat.bounciness.value = contacts ? 0 : r.f(0, 1);
    }
    s.settings.enableWarmstarting = r.chance(0.7);
    // impulses far from their solution, warm started, feed on themselves
    Built b{s};
    double light = 1e30, heavy = 0;
    for (Body* k : b.bodies) light = std::min(light, double(k->mass())), heavy = std::max(heavy, double(k->mass()));
    if (s.joints.size() && (o.loops || o.structural || heavy > 2.5 * light))
    {
        World::Settings w = b.w.settings();
        w.nVelocityIterations = o.loops ? 150 : 40;
        b.w.updateSettings(w);
        ctx.count("hard_groups");
    }
    auto energy = [&] {
        double t = 0;
        for (Body* k : b.bodies)
            if (k->dominance() != 0) t += (double(k->mass()) * std::pow(ref::norm(P{k->velocity()}), 2) + double(k->inertia()) * std::pow(double(k->angularVelocity()), 2)) / 2;
        return t;
    };
    double E0 = energy(), worst = 0;
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.004, 0.02);
    int steps = r.i(60, 300);
    for (int k = 0; k < steps; ++k)
    {
        b.w.step(dt);
        double E = energy();
        worst = std::max(worst, (E - E0) / (E0 + 1e-3));
        if (k % 20 == 0) ctx.log("step %d energy %g of %g", k, E, E0);
    }
    ctx.count(contacts ? s.joints.empty() ? "loose_groups" : "mixed_groups" : "jointed_groups");
    ctx.max(contacts ? s.joints.empty() ? "loose_gain" : "mixed_gain" : "jointed_gain", worst);
    // a joint that squeezes two bodies against each other makes a stress friction lives on
    double most = contacts && s.joints.size() ? 0.5 : o.loops ? 0.1 : 0.01;
    VF_CHECK(ctx, worst < most, "group-gains", "a group of %zu bodies and %zu joints left alone raises its kinetic energy from %g by %g of it", s.bodies.size(), s.joints.size(), E0, worst);
    ctx.state(Hash{}.add(worst));
}
} // namespace
VF_PROPERTY(C08)
{
    if (ctx.rng.chance(0.85)) energyPair(ctx);
    else energyGroup(ctx);
}

// ---------------------------------------------------------------------------
// W10
namespace
{
const char* modeNames[] = {"average", "minimum", "multiply", "maximum"};
double combined(int ma, double a, int mb, double b)
{
    switch (std::max(ma, mb))
    {
        case 0: return (a + b) / 2;
        case 1: return std::min(a, b);
        case 2: return a * b;
        default: return std::max(a, b);
    }
}
CombinableProperty prop(double v, int mode) { return CombinableProperty{float(v), CombinableProperty::Mode(mode)}; }
} // namespace
VF_PROPERTY(W10)
{
    Rng& r = ctx.rng;
    VF_CHECK(ctx, int(CombinableProperty::average) < int(CombinableProperty::minimum) && int(CombinableProperty::minimum) < int(CombinableProperty::multiply) && int(CombinableProperty::multiply) < int(CombinableProperty::maximum), "priority", "the documented order of the modes is average, minimum, multiply, maximum");
    int m[3][2]; // bounciness, friction, penetration
    double v[3][2];
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 2; ++i) m[k][i] = r.i(0, 3);
    for (int i = 0; i < 2; ++i)
    {
        v[0][i] = r.chance(0.1) ? r.i(0, 1) : r.d(0, 1);
        v[1][i] = r.chance(0.1) ? 0 : r.d(0.02, 0.8);
        // the product of two lengths is small: keep it above what a step can see
        v[2][i] = std::max(m[2][0], m[2][1]) == 2 ? r.d(0.05, 0.3) : r.d(0.004, 0.05);
    }
    for (int k = 0; k < 3; ++k)
    {
        double want = combined(m[k][0], float(v[k][0]), m[k][1], float(v[k][1]));
        for (int order = 0; order < 2; ++order)
        {
            CombinableProperty c{prop(v[k][order], m[k][order]), prop(v[k][1 - order], m[k][1 - order])};
            VF_CHECK(ctx, int(c.mode) == std::max(m[k][0], m[k][1]), "combined-mode", "combining %s and %s gives %s", modeNames[m[k][order]], modeNames[m[k][1 - order]], modeNames[int(c.mode) & 3]);
            VF_CHECK(ctx, std::abs(double(c.value) - want) <= 1e-6 * std::abs(want), "combined-value", "combining %s %g and %s %g gives %g, expected %g", modeNames[m[k][order]], v[k][order], modeNames[m[k][1 - order]], v[k][1 - order], double(c.value), want);
            VF_CHECK(ctx, std::abs(double(CombinableProperty::combine(c.mode, float(v[k][order]), float(v[k][1 - order]))) - want) <= 1e-6 * std::abs(want), "combined-value", "combine() of %g and %g as %s is not %g", v[k][0], v[k][1], modeNames[int(c.mode) & 3], want);
        }
        ctx.count((std::string("mode_") + modeNames[std::max(m[k][0], m[k][1])]).c_str());
    }
    double e = combined(m[0][0], float(v[0][0]), m[0][1], float(v[0][1])), mu = combined(m[1][0], float(v[1][0]), m[1][1], float(v[1][1])), pen = combined(m[2][0], float(v[2][0]), m[2][1], float(v[2][1]));
    // a box against a box or a corner, moving along and towards
    double turned = r.d(-PI, PI);
    P n = rot(P{0, 1}, turned), t = rot(P{1, 0}, turned);
    BodySpec s[2];
    int what = r.i(0, 2);
    double half = r.d(0.3, 0.8);
    double over = what == 2 ? pen * (r.chance(0.5) ? r.d(0.3, 0.97) : r.d(1.03, 1.8)) : pen * 1.2;
    for (int i = 0; i < 2; ++i)
    {
        s[i].angle = turned;
        s[i].cols = {ColSpec{ref::boxPoly(i == 0 ? 12 : 2 * half, i == 0 ? 3 : 2 * half, P{}, 0), Material{}}};
        auto& mat = s[i].cols[0].mat;
        mat.density = r.logf_(0.3, 5);
        mat.bounciness = prop(v[0][i], m[0][i]);
        mat.friction = prop(v[1][i], m[1][i]);
        mat.penetration = prop(v[2][i], m[2][i]);
    }
    s[0].dominance = 0;
    s[1].pos = n * (1.5 + half - over);
    double approach = r.d(1.2, 5), slide = r.d(20, 40) * (r.chance(0.5) ? 1 : -1);
    if (what == 0) s[1].vel = n * -approach, slide = 0;
    if (what == 1) s[1].vel = n * -approach + t * slide;
    World w;
    Follow f;
    f.attach(w);
    Body* b[2];
    int first = r.i(0, 1);
    b[first] = addBody(w, s[first]);
    b[1 - first] = addBody(w, s[1 - first]);
    // the contact is made by a step
    float dt = 1e-4f;
    for (int k = 0; k < 3 && (f.seen.empty() || f.seen.begin()->second.info.nContacts == 0); ++k)
    {
        Before x = beforeOf(b);
        f.seen.clear();
        w.step(dt);
        if (f.seen.empty()) continue;
        const Seen& c = f.seen.begin()->second;
        if (what == 2)
        {
            double depth = -c.gap;
            if (std::abs(depth - pen) < 1e-5 + 1e-3 * pen) continue;
            ctx.count(depth > pen ? "deeper" : "shallower");
            VF_CHECK(ctx, (c.info.nContacts > 0) == (depth > pen), "penetration-used", "shapes overlapping by %g have %u contact points; tolerated penetrations %s %g and %s %g combine to %g", depth, unsigned(c.info.nContacts), modeNames[m[2][0]], v[2][0], modeNames[m[2][1]], v[2][1], pen);
            break;
        }
        if (c.info.nContacts == 0) continue;
        Deed d = deedOf(c, x, b, P{});
        if (what == 0)
        {
            double ratio = ref::dot(P{b[1]->velocity()}, n) / approach;
            ctx.count("bounced");
            VF_CHECK(ctx, mu > 0.7 || std::abs(ratio - e) < 1e-3, "bounciness-used", "a box hitting at %g leaves at %g of it; bouncinesses %s %g and %s %g combine to %g", approach, ratio, modeNames[m[0][0]], v[0][0], modeNames[m[0][1]], v[0][1], e);
        }
        else
        {
            double ratio = std::abs(d.Jt) / d.Jn;
            ctx.count("rubbed");
            ctx.max("rub_error", std::abs(ratio - mu));
            VF_CHECK(ctx, std::abs(ratio - mu) < 0.02 * mu + 1e-3, "friction-used", "a sliding box has a friction impulse of %g times the normal one; frictions %s %g and %s %g combine to %g", ratio, modeNames[m[1][0]], v[1][0], modeNames[m[1][1]], v[1][1], mu);
        }
        break;
    }
    ctx.state(Hash{}.add(e).add(mu).add(pen));
}
