// W09: any ordinary world keeps running: crowded, overlapping, exactly aligned, thin, linked;
// what cannot be built is refused and leaves no trace.
#include "world_kit.hpp"
#include <algorithm>

using namespace wk;

namespace
{
struct Crowd
{
    Scene s;
    const char* style = "";
    double height = 0;    // of the container
    double gravity = 10;
    bool contained = false;
    double w = 0;
};

Material material(Rng& r)
{
    Material m;
    m.density = r.chance(0.5) ? 1.f : r.logf_(0.3, 8);
    m.friction.value = r.chance(0.2) ? 0.f : r.f(0, 1);
    m.bounciness.value = r.chance(0.4) ? 0.f : r.f(0, 0.9);
    return m;
}

Poly slab(Rng& r, double length, double ratio) // a thin shape
{
    double a = r.d(0, 2 * PI);
    Poly p;
    switch (r.i(0, 2))
    {
        case 0: p = ref::boxPoly(length, length * ratio, P{}, a); break;
        case 1: p = {P{-length / 2, 0}, P{length / 2, 0}, P{r.d(-.4, .4) * length, length * ratio}}; break;
        default: p = ref::roundConvex(r, r.i(3, 7), length / 2, ratio, P{}, a); break;
    }
    return p;
}

void container(Crowd& c, Rng& r, double w, double h)
{
    Material m = material(r);
    auto wall = [&](P at, double sx, double sy) {
        BodySpec b;
        b.pos = at;
        b.dominance = 0;
        b.cols.push_back({ref::boxPoly(sx, sy, P{}, 0), m});
        return b;
    };
    if (r.chance(0.5))
    {
        c.s.bodies.push_back(wall({0, -1}, w + 4, 2));
        c.s.bodies.push_back(wall({-w / 2 - 1, h / 2}, 2, h));
        c.s.bodies.push_back(wall({w / 2 + 1, h / 2}, 2, h));
    }
    else // one body
    {
        BodySpec b = wall({0, -1}, w + 4, 2);
        b.cols.push_back({ref::boxPoly(2, h, P{-w / 2 - 1, 1 + h / 2}, 0), m});
        b.cols.push_back({ref::boxPoly(2, h, P{w / 2 + 1, 1 + h / 2}, 0), m});
        c.s.bodies.push_back(b);
    }
}

// a chain or a star of bodies of comparable masses, linked near their sides, hung or loose
Scene machine(Rng& r)
{
    Scene s;
    int n = r.i(2, 6);
    bool star = r.chance(0.3), hung = r.chance(0.3);
    double density = r.d(0.5, 3), turn = r.d(-1, 1);
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        double a = star ? 2 * PI * k / (n - 1) : turn + r.d(-0.5, 0.5);
        if (k > 0) b.pos = (star ? P{} : s.bodies.back().pos) + P{std::cos(a), std::sin(a)} * r.d(1.3, 1.6);
        if (star && k > 0 && n == 6) b.pos = b.pos * 1.3;
        b.angle = r.d(-3, 3);
        ColSpec col{shape(r, r.d(0.8, 1.2), P{}, r.i(0, 1) == 0 ? 0 : 4)};
        col.mat.density = float(density * r.d(0.7, 1.4));
        b.cols.push_back(col);
        if (k == 0 && hung) b.dominance = 0;
        s.bodies.push_back(b);
        if (k == 0) continue;
        JointSpec j;
        j.a = star ? 0 : k - 1;
        j.b = k;
        P pa = s.bodies[size_t(j.a)].pos, pb = b.pos, mid = (pa + pb) * 0.5;
        if (r.chance(0.5)) std::swap(j.a, j.b), std::swap(pa, pb);
        switch (r.i(0, 5))
        {
            case 0: j.kind = n <= 3 ? JointSpec::weld : JointSpec::rotation; break;
            case 1:
            case 2:
                j.kind = JointSpec::hinge;
                j.p0 = P{ref::v2(mid + P{r.d(-.2, .2), r.d(-.2, .2)})};
                break;
            default:
            {
                j.kind = JointSpec::distance;
                j.p0 = P{ref::v2(pa + P{r.d(-.3, .3), r.d(-.3, .3)})};
                j.p1 = P{ref::v2(pb + P{r.d(-.3, .3), r.d(-.3, .3)})};
                double d = ref::norm(j.p1 - j.p0);
                int kind = r.i(0, 2);
                if (kind == 0) j.lo = j.hi = float(d);
                else if (kind == 1) j.hi = float(d * r.d(1, 1.2));
                else j.lo = float(d * r.d(0.7, 0.95)), j.hi = float(d * r.d(1.05, 1.3));
            }
        }
        s.joints.push_back(j);
    }
    for (int k = 0; k < n; ++k)
        if (s.bodies[size_t(k)].dominance != 0 && r.chance(0.25))
        {
            JointSpec j;
            j.kind = r.chance(0.5) ? JointSpec::rotMotor : JointSpec::transMotor;
            j.a = j.b = k;
            j.maxV = r.f(0.5f, 4);
            j.maxF = r.f(0.5f, 10);
            j.throttle = r.chance(0.2) ? 0.f : r.f(0.1f, 1);
            j.dir = j.kind == JointSpec::rotMotor ? P{r.chance(0.5) ? 1.0 : -1.0, 0} : P{r.d(-1, 1), r.d(-1, 1)};
            s.joints.push_back(j);
        }
    return s;
}

Crowd crowd(Rng& r)
{
    Crowd c;
    int style = r.i(0, 4);
    double w = style == 3 ? 14 : r.d(4, 9);
    c.height = 40;
    int n = r.i(4, 26);
    c.w = w;
    c.contained = style != 1 || r.chance(0.7);
    if (c.contained) container(c, r, w, c.height);
    c.gravity = r.chance(0.1) ? 0 : r.d(2, 15);
    c.s.gravities.push_back(P{0, -c.gravity});
    switch (style)
    {
        case 0:
        case 4:
        {
            c.style = style == 0 ? "pile" : "overlapping";
            for (int k = 0; k < n; ++k)
            {
                BodySpec b;
                b.pos = style == 0 ? P{r.d(-w / 2 + 1, w / 2 - 1), 1 + 0.8 * k} : P{r.d(-w / 2 + 1, w / 2 - 1), r.d(0.7, 4)};
                b.angle = r.d(-3, 3);
                b.vel = P{r.d(-4, 4), r.d(-4, 4)};
                b.w = r.d(-4, 4);
                int nc = style == 0 && r.chance(0.2) ? r.i(2, 3) : 1;
                for (int i = 0; i < nc; ++i) b.cols.push_back({shape(r, r.d(0.4, 1.4), i ? P{r.d(-.5, .5), r.d(-.5, .5)} : P{}), material(r)});
                c.s.bodies.push_back(b);
            }
            break;
        }
        case 1: // exactly aligned, touching, concentric, identical
        {
            c.style = "exact";
            Poly p = shape(r, 1, P{}, r.i(0, 1) ? 0 : 4);
            if (r.chance(0.5)) p = ref::boxPoly(1, 1, P{}, 0);
            Material m = material(r);
            int rule = r.i(0, 4);
            for (int k = 0; k < n; ++k)
            {
                BodySpec b;
                switch (rule)
                {
                    case 0: b.pos = P{0, 0.5 + k}; break;                                // column
                    case 1: b.pos = P{double(k % 4) - 1.5, 0.5 + k / 4}; break;          // grid
                    case 2: b.pos = P{double(r.i(-1, 1)), 0.5 + r.i(0, 3)}; break;       // several at one place
                    case 3: b.pos = P{0.5 * r.i(-3, 3), 0.5 + 0.5 * r.i(0, 6)}; break;   // half over each other
                    default: b.pos = P{0.25 * (k % 2), 0.5 + k}; break;
                }
                b.angle = r.chance(0.8) ? 0 : PI / 4 * r.i(-4, 4);
                b.cols.push_back({p, m});
                c.s.bodies.push_back(b);
            }
            break;
        }
        case 2:
        {
            c.style = "thin";
            for (int k = 0; k < n; ++k)
            {
                BodySpec b;
                b.pos = P{r.d(-w / 2 + 1, w / 2 - 1), r.d(1, 5)};
                b.angle = r.d(-3, 3);
                b.vel = P{r.d(-4, 4), r.d(-4, 4)};
                b.w = r.d(-4, 4);
                b.cols.push_back({slab(r, r.d(0.5, 2.5), r.logf_(0.04, 0.3)), material(r)});
                c.s.bodies.push_back(b);
            }
            break;
        }
        default:
        {
            c.style = "machines";
            double top = 5;
            for (int m = r.i(1, 3); m > 0; --m)
            {
                Scene t = machine(r);
                int at = int(c.s.bodies.size());
                double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
                for (auto& b : t.bodies)
                {
                    x0 = std::min(x0, b.pos.x), x1 = std::max(x1, b.pos.x);
                    y0 = std::min(y0, b.pos.y), y1 = std::max(y1, b.pos.y);
                }
                P move = P{ref::v2(P{r.d(-w / 2 + 1 - x0, w / 2 - 1 - x1), top - y0})};
                top += y1 - y0 + 2;
                for (auto& b : t.bodies)
                {
                    b.pos = b.pos + move;
                    if (b.dominance == 0) b.vel = P{}, b.w = 0;
                    for (auto& k : b.cols) k.mat.friction.value = 0.5f;
                    c.s.bodies.push_back(b);
                }
                for (auto j : t.joints)
                {
                    j.a += at;
                    j.b += at;
                    j.p0 = j.p0 + move;
                    j.p1 = j.p1 + move;
                    c.s.joints.push_back(j);
                }
            }
            for (int k = r.i(0, 8); k > 0; --k)
            {
                BodySpec b;
                b.pos = P{r.d(-w / 2 + 1, w / 2 - 1), r.d(1, 4)};
                b.angle = r.d(-3, 3);
                b.cols.push_back({shape(r, r.d(0.4, 1.2)), material(r)});
                c.s.bodies.push_back(b);
            }
        }
    }
    if (r.chance(0.3))
    {
        c.s.settings.nVelocityIterations = r.i(1, 12);
        c.s.settings.nPositionIterations = r.i(0, 4);
        c.s.settings.enableWarmstarting = r.chance(0.7);
    }
    return c;
}

void run(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Crowd c = crowd(r);
    Built b{c.s};
    int steps = ctx.thorough ? r.i(100, 600) : r.i(40, 160);
    float dt = r.pick(std::vector<float>{1.f / 120, 1.f / 60, 1.f / 60, 1.f / 30});
    bool varying = r.chance(0.2);
    double e0 = 0, e1 = -1e300, mtot = 0, work = 0, kin0 = 0, elapsed = 0;
    for (Body* k : b.bodies)
        if (!k->isStructural())
        {
            double v = ref::norm(P{k->velocity()}), m = k->mass();
            kin0 += (m * v * v + k->inertia() * double(k->angularVelocity()) * k->angularVelocity()) / 2;
            e0 += m * c.gravity * (P{k->centroid()}.y);
            mtot += m;
        }
    e0 += kin0;
    double power = 0;
    for (auto& j : c.s.joints)
        if (j.kind == JointSpec::rotMotor || j.kind == JointSpec::transMotor) power += double(j.maxF) * j.maxV * j.throttle;
    bool strong = c.s.settings.nVelocityIterations >= 4 && c.s.settings.nPositionIterations >= 2;
    Hash h;
    double fastest = 0;
    for (int s = 0; s < steps; ++s)
    {
        float d = varying ? r.pick(std::vector<float>{0.f, dt, dt, dt / 2, dt * 1.5f}) : dt;
        try
        {
            b.w.step(d);
        }
        catch (const simu::Exception& e)
        {
            ctx.fail("step-throws", "%s world of %zu bodies, step %d (dt %.4f): %s", c.style, b.bodies.size(), s, d, e.what());
        }
        ctx.count("steps");
        double e = 0;
        for (size_t k = 0; k < b.bodies.size(); ++k)
        {
            Body* o = b.bodies[k];
            P x{o->position()}, v{o->velocity()};
            VF_CHECK(ctx, finite(x) && finite(v) && std::isfinite(o->orientation()) && std::isfinite(o->angularVelocity()), "not-finite",
                     "%s world, step %d, body %zu: position %g %g velocity %g %g angle %g spin %g", c.style, s, k, x.x, x.y, v.x, v.y,
                     double(o->orientation()), double(o->angularVelocity()));
            if (o->isStructural()) continue;
            double m = o->mass(), w = o->angularVelocity();
            e += (m * ref::dot(v, v) + o->inertia() * w * w) / 2 + m * c.gravity * P{o->centroid()}.y;
            fastest = std::max(fastest, ref::norm(v));
        }
        e1 = std::max(e1, e);
        elapsed += d;
        double slack = 8 * mtot * c.gravity + 1.5 * kin0 + 2 + 1.5 * power * elapsed;
        if (strong || c.s.joints.empty())
        {
            ctx.max("energy_gain_of_slack", (e - e0) / slack);
            VF_CHECK(ctx, e - e0 < slack, "energy-grows", "%s world, step %d: energy %g started from %g (slack %g)", c.style, s, e, e0, slack);
        }
        int nc = 0;
        double deepest = 0;
        for (auto& ct : b.w.contacts())
        {
            ContactInfo i = ct.contactInfo();
            if (i.nContacts == 0) continue;
            ++nc;
            double len = ref::norm(P{i.normal});
            VF_CHECK(ctx, std::abs(len - 1) < 1e-3, "normal-not-unit", "%s world, step %d: normal of length %g", c.style, s, len);
            for (Uint32 q = 0; q < i.nContacts; ++q)
            {
                P d = P{i.incContacts[q]} - P{i.refContacts[q]};
                VF_CHECK(ctx, finite(d), "contact-not-finite", "%s world, step %d", c.style, s);
                deepest = std::max(deepest, -ref::dot(d, P{i.normal}));
            }
        }
        ctx.count("contacts", nc);
        ctx.max("most_contacts", nc);
        if (s == steps - 1)
        {
            h.add(uint64_t(nc)).add(b.bodies.back()->position()[0]).add(b.bodies.back()->position()[1]);
            std::string nm = std::string("deepest_at_end_") + c.style;
            ctx.max(nm.c_str(), deepest);
            double lost = 0;
            for (Body* o : b.bodies)
                if (!o->isStructural() && c.contained) lost = std::max({lost, -P{o->centroid()}.y, std::abs(P{o->centroid()}.x) - c.w / 2});
            bool calm = strong && fastest * dt * (varying ? 1.5 : 1) < 0.25 && strcmp(c.style, "thin") != 0 && strcmp(c.style, "pile") != 0;
            if (calm && c.contained)
            {
                ctx.count("containers_judged");
                ctx.max("out_of_container", lost);
                VF_CHECK(ctx, lost < 0.6, "pressed-out", "%s world: a body is %g beyond the floor or walls after %d steps", c.style, lost, s + 1);
            }
        }
    }
    std::string nm = std::string("worlds_") + c.style;
    ctx.count(nm.c_str());
    ctx.state(h);
}
} // namespace

namespace
{
// everything observable of a world
void look(Hash& h, World& w)
{
    int n = 0;
    for (Body& b : w.bodies())
    {
        h.add(b.position()[0]).add(b.position()[1]).add(b.orientation()).add(b.velocity()[0]).add(b.velocity()[1]).add(b.angularVelocity());
        h.add(b.mass()).add(b.inertia()).add(b.centroid()[0]).add(b.centroid()[1]);
        for (const Collider& c : b.colliders())
            for (Vec2 v : c.vertexView()) h.add(v[0]).add(v[1]);
        int k = 0;
        for (Constraint* c : b.constraints()) ++k, (void)c;
        h.add(uint64_t(k));
        ++n;
    }
    h.add(uint64_t(n));
    n = 0;
    for (Constraint& c : w.constraints()) ++n, (void)c;
    h.add(uint64_t(n));
    n = 0;
    for (ContactConstraint& c : w.contacts()) n += 1 + int(c.contactInfo().nContacts);
    h.add(uint64_t(n));
}

struct Refusal
{
    const char* what;
    std::function<void()> attempt;
};

void refuse(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Crowd c = crowd(r);
    if (c.s.bodies.size() > 14) c.s.bodies.resize(14), c.s.joints.clear();
    Built b{c.s}, twin{c.s};
    std::vector<Body*> free, fixed;
    for (Body* k : b.bodies) (k->isStructural() ? fixed : free).push_back(k);
    if (free.empty()) return;
    int steps = r.i(4, 12);
    for (int s = 0; s < steps; ++s)
    {
        b.w.step(1.f / 60);
        twin.w.step(1.f / 60);
        if (!r.chance(0.6)) continue;
        Body* f = r.pick(free);
        Body* g = r.pick(free);
        P at{f->centroid()};
        Poly good = shape(r, 1);
        Material m = material(r);
        float bad = -r.f(0, 3);
        if (r.chance(0.3)) bad = 0;
        std::array<Vec2, 2> ends{ref::v2(at), ref::v2(at + P{1, 0.5})};
        std::vector<Refusal> all{
            {"a collider of two vertices", [&] { Vertices v{Vec2{0.f, 0.f}, Vec2{1.f, 1.f}}; f->addCollider({Polygon{v.begin(), v.end()}, m}); }},
            {"a collider without vertices", [&] { Vertices v{}; f->addCollider({Polygon{v.begin(), v.end()}, m}); }},
            {"a collider that is a line",
             [&] {
                 float dx = float(r.i(-3, 3)), dy = float(r.i(1, 3));
                 Vertices v;
                 for (int k = 0; k < 3; ++k) v.push_back(Vec2{float(k) * dx, float(k) * dy});
                 f->addCollider({Polygon{v.begin(), v.end()}, m});
             }},
            {"a collider that is a point", [&] { Vertices v(size_t(r.i(3, 5)), Vec2{float(r.i(-4, 4)), float(r.i(-4, 4))}); f->addCollider({Polygon{v.begin(), v.end()}, m}); }},
            {"a collider of no density", [&] { m.density = bad; f->addCollider({polygonOf(good), m}); }},
            {"a distance that is nothing", [&] { b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, std::optional<float>{}, std::optional<float>{}); }},
            {"a least distance below zero", [&] { b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, std::optional<float>{bad}, std::optional<float>{r.f(1, 2)}); }},
            {"only a least distance below zero", [&] { b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, std::optional<float>{bad}, std::optional<float>{}); }},
            {"a most distance below zero", [&] { b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, std::optional<float>{}, std::optional<float>{bad}); }},
            {"a distance of zero", [&] { b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, bad); }},
            {"a least distance above the most", [&] { float x = r.f(0.2, 2); b.w.makeConstraint<DistanceConstraint>(Bodies{f, g}, ends, std::optional<float>{x + r.f(0.01, 1)}, std::optional<float>{x}); }},
        };
        if (!fixed.empty())
        {
            Body* a = r.pick(fixed);
            Body* z = r.pick(fixed);
            all.push_back({"a hinge between structural bodies", [&, a, z] { b.w.makeConstraint<HingeConstraint>(Bodies{a, z}, ref::v2(at)); }});
            all.push_back({"a weld between structural bodies", [&, a, z] { b.w.makeConstraint<WeldConstraint>(Bodies{a, z}); }});
            all.push_back({"a distance between structural bodies", [&, a, z] { b.w.makeConstraint<DistanceConstraint>(Bodies{a, z}, ends, 1.f); }});
            all.push_back({"a rotation between structural bodies", [&, a, z] { b.w.makeConstraint<RotationConstraint>(Bodies{a, z}); }});
            all.push_back({"a hinge with no dominance left", [&, a] { b.w.makeConstraint<HingeConstraint>(Bodies({f, a}, Bodies::Dominance{0.f, 0.f}), ref::v2(at)); }});
        }
        Hash before, after;
        look(before, b.w);
        for (int k = r.i(1, 4); k > 0; --k)
        {
            const Refusal& t = r.pick(all);
            bool refused = false;
            try
            {
                t.attempt();
            }
            catch (const simu::Exception&)
            {
                refused = true;
            }
            VF_CHECK(ctx, refused, "not-refused", "the world accepted %s", t.what);
            ctx.count("refused");
        }
        look(after, b.w);
        VF_CHECK(ctx, before.h == after.h, "refusal-changed-world", "a %s world is not the same after it refused something (step %d)", c.style, s);
    }
    Hash x, y;
    look(x, b.w);
    look(y, twin.w);
    VF_CHECK(ctx, x.h == y.h, "refusal-changed-future", "a %s world moves differently after it refused something", c.style);
    ctx.count("refusing_worlds");
    ctx.state(x);
}
} // namespace

VF_PROPERTY(W09)
{
    if (ctx.rng.chance(0.3)) refuse(ctx);
    else run(ctx);
}
