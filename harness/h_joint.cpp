// C01..C04, W06, W08: joints, motors, groups, symmetry of the laws of motion.
#include "world_kit.hpp"
#include <numeric>
using namespace wk;

namespace
{
World::Settings randomSettings(Rng& r, bool atLeastOne = true)
{
    World::Settings s;
    if (r.chance(0.6)) return s;
    s.nVelocityIterations = Uint32(r.i(atLeastOne ? 1 : 0, 12));
    s.nPositionIterations = Uint32(r.i(0, 5));
    s.enableWarmstarting = r.chance(0.5);
    return s;
}
float stepLength(Rng& r) { return r.pick<float>({1.f / 60, 1.f / 60, 0.01f, 1.f / 30, r.f(0.002f, 0.03f)}); }

struct Mech
{
    double m, I;
    P c, v;
    double th, w;
    explicit Mech(const Body* b)
        : m{b->mass()}, I{b->inertia()}, c{b->centroid()}, v{b->velocity()}, th{b->orientation()}, w{b->angularVelocity()} {}
};
std::vector<Mech> mech(const std::vector<Body*>& bs)
{
    std::vector<Mech> v;
    for (Body* b : bs) v.push_back(Mech{b});
    return v;
}
P comOf(const std::vector<Mech>& s)
{
    P c;
    double m = 0;
    for (auto& b : s) c = c + b.c * b.m, m += b.m;
    return c * (1 / m);
}
} // namespace

// ---------------------------------------------------------------------------
VF_PROPERTY(C01)
{
    Rng& r = ctx.rng;
    Scene s;
    bool crowd = r.chance(0.35);
    if (crowd)
    {
        int n = r.i(2, 6);
        for (int k = 0; k < n; ++k)
        {
            BodySpec b;
            b.pos = P{r.d(-1.5, 1.5), r.d(-1.5, 1.5)};
            b.angle = r.d(-3, 3);
            b.vel = b.pos * -r.d(0, 2) + P{r.d(-1, 1), r.d(-1, 1)};
            b.w = r.d(-2, 2);
            ColSpec c{shape(r, r.d(0.6, 1.5))};
            c.mat.density = r.logf_(0.3, 5);
            c.mat.bounciness = CombinableProperty{r.f(0, 1)};
            c.mat.friction = CombinableProperty{r.f(0, 1.5)};
            b.cols.push_back(c);
            s.bodies.push_back(b);
        }
    }
    else
    {
        SceneOptions o;
        o.loops = r.chance(0.3);
        o.disableContacts = r.chance(0.6);
        o.spacing = o.disableContacts ? 2 : r.d(0.8, 2);
        if (r.chance(0.4)) o.joint = r.i(0, 6);
        s = jointedScene(r, o);
    }
    if (r.chance(0.4)) s.gravities.push_back(P{0, -10});
    if (r.chance(0.1)) s.gravities.push_back(P{r.d(-5, 5), r.d(-5, 5)});
    s.settings = randomSettings(r);
    Built b{s};
    double contactGap = 0;
    int live = 0;
    b.w.setContactFactory(watching([&](WatchedContact& c) {
        ContactInfo i = c.contactInfo();
        for (Uint32 k = 0; k < i.nContacts; ++k) contactGap = std::max(contactGap, ref::norm(P{i.refContacts[k]} - P{i.incContacts[k]})), ++live;
    }));
    // the same deltas, as the bodies' masses see them
    P g;
    for (P q : s.gravities) g = g + q;
    for (auto& j : b.joints) ctx.log("joint %d (%d %d) lo %g hi %g", int(j.spec.kind), j.spec.a, j.spec.b, double(j.spec.lo.value_or(-1)), double(j.spec.hi.value_or(-1)));
    int steps = ctx.thorough ? 80 : 30;
    float dt = stepLength(r);
    Hash h;
    double maxP = 0, maxL = 0;
    for (int k = 0; k < steps; ++k)
    {
        if (r.chance(0.06))
        { // masses change after linking
            Body* x = b.bodies[r.next() % b.bodies.size()];
            int nc = 0;
            Collider* last = nullptr;
            for (auto& c : x->colliders()) last = const_cast<Collider*>(&c), ++nc;
            if (nc > 1 && r.chance(0.5)) x->removeCollider(last);
            else if (nc < 4)
            {
                ColSpec c{shape(r, 0.6, P{r.d(-.3, .3), r.d(-.3, .3)})};
                c.mat.density = r.logf_(0.5, 20);
                addCol(x, c);
            }
            ctx.count("mass_changes");
        }
        contactGap = 0;
        live = 0;
        double gap = 0;
        for (auto& j : b.joints)
            if (j.spec.kind == JointSpec::hinge || j.spec.kind == JointSpec::weld) gap = std::max(gap, b.gap(j));
        auto s0 = mech(b.bodies);
        for (auto& j : b.joints) ctx.log("  joint gap %g", b.gap(j));
        if (r.chance(0.1)) dt = stepLength(r);
        b.w.step(dt);
        auto s1 = mech(b.bodies);
        for (auto& j : b.joints) ctx.log("  joint gap %g", b.gap(j));
        gap = std::max(gap, contactGap);
        P com = comOf(s0);
        P dp, dx;
        double dL = 0, dA = 0, M = 0, sp = 0, sl = 0, push = 0, sx = 0, sd = 0, maxd = 0, ulp = 0;
        for (size_t i = 0; i < s0.size(); ++i)
        {
            auto &a = s0[i], &z = s1[i];
            P dv = z.v - a.v - g * double(dt), rr = a.c - com;
            P d = z.c - a.c - z.v * double(dt);
            double dw = z.w - a.w, dth = z.th - a.th - z.w * double(dt);
            double arm = ref::norm(rr) + 0.5;
            ctx.log("   body %zu c0 (%.9g %.9g) c1 (%.9g %.9g) v1 (%g %g) th0 %g th1 %g x %.9g %.9g lc %g %g", i, a.c.x, a.c.y, z.c.x, z.c.y, z.v.x, z.v.y, a.th, z.th, b.bodies[i]->position()[0], b.bodies[i]->position()[1], b.bodies[i]->localCentroid()[0], b.bodies[i]->localCentroid()[1]);
            ctx.log("   body %zu m %g I %g dv (%g %g) dw %g d (%g %g) dth %g", i, a.m, a.I, dv.x, dv.y, dw, d.x, d.y, dth);
            M += a.m;
            dp = dp + dv * a.m;
            dx = dx + d * a.m;
            dL += a.m * ref::cross(rr, dv) + a.I * dw;
            dA += a.m * ref::cross(rr + z.v * double(dt) + d * 0.5, d) + a.I * dth; // about where the corrections took place
            sp += a.m * (ref::norm(a.v) + ref::norm(z.v) + ref::norm(g) * dt);
            sl += a.m * (ref::norm(a.v) + ref::norm(z.v) + ref::norm(g) * dt) * arm + a.I * (std::abs(a.w) + std::abs(z.w));
            push += a.m * ref::norm(dv) + a.I * std::abs(dw);
            double u = 1e-7 * (ref::norm(a.c) + ref::norm(z.c) + 4);
            sx += a.m * u;
            ulp += a.m * u * arm + a.I * 1e-7 * (std::abs(a.th) + 1);
            sd += a.m * ref::norm(d) + a.I * std::abs(dth);
            maxd = std::max({maxd, ref::norm(d), std::abs(dth)});
        }
        double gapX = gap; // the anchors may be further apart after the bodies moved
        for (auto& j : b.joints) gapX = std::max(gapX, b.gap(j));
        double ep = ref::norm(dp) / (sp + 1e-9), el = std::abs(dL) / (sl + gap * (push * 10 + sp) * 1e4 + 1e-9);
        maxP = std::max(maxP, ep);
        maxL = std::max(maxL, el);
        ctx.log("step %d gap %g ep %g el %g dx %g/%g dA %g sd %g maxd %g ulp %g live %d push %g", k, gap, ep, el, ref::norm(dx), sx, dA, sd, maxd, ulp, live, push);
        ctx.max("p_err", ep);
        if (gap <= 0.02) ctx.max("L_err", el);
        ctx.max("x_err", ref::norm(dx) / (sx * 10 + 1e-5 * sd));
        if (gapX <= 0.02) ctx.max("A_err", std::abs(dA) / (ulp * 10 + (gapX * 40 + maxd * 10) * sd + 1e-5 * sd));
        VF_CHECK(ctx, ep <= 2e-6, "momentum", "step %d: internal interactions changed the linear momentum by (%.9g %.9g), magnitude involved %g", k, dp.x, dp.y, sp);
        if (gap <= 0.02) ctx.count("angular_judged");
        VF_CHECK(ctx, gap > 0.02 || el <= 2e-4, "angular", "step %d: internal interactions changed the angular momentum by %.9g, magnitude involved %g, anchors %g apart", k, dL, sl, gap);
        VF_CHECK(ctx, ref::norm(dx) <= sx * 10 + 1e-5 * sd, "centre", "step %d: corrections moved the centre of mass by (%.9g %.9g)", k, dx.x / M, dx.y / M);
        VF_CHECK(ctx, gapX > 0.02 || std::abs(dA) <= ulp * 20 + (gapX * 100 + maxd * 30) * sd + 3e-5 * sd, "centre-turn", "step %d: corrections turned the group: moment %.9g of displacements %g, gap %g", k, dA, sd, gap);
        ctx.count("steps");
        if (push > 1e-4 * sp) ctx.count("interacting_steps");
        if (sd > 1e-5 * M) ctx.count("corrected_steps");
        if (live) ctx.count("contact_steps");
        h.add(dL).add(dp.x);
        if (!tame(b, 200, 200)) { ctx.count("wild"); break; }
    }
    ctx.count("joints", double(b.joints.size()));
    ctx.state(h);
}

// ---------------------------------------------------------------------------
VF_PROPERTY(C02)
{
    Rng& r = ctx.rng;
    int scenario = r.i(0, 5);
    if (scenario <= 1)
    { // immovable in any company
        SceneOptions o;
        o.structural = true;
        o.loops = r.chance(0.3);
        o.motors = true;
        o.disableContacts = r.chance(0.5);
        o.spacing = o.disableContacts ? 2 : r.d(0.8, 2);
        o.massRatio = 1000;
        Scene s = jointedScene(r, o);
        if (r.chance(0.7)) s.gravities.push_back(P{0, -10});
        s.settings = randomSettings(r, false);
        if (r.chance(0.5))
        { // a floor, maybe a moving platform
            BodySpec f;
            f.dominance = 0;
            f.pos = P{0, -3};
            f.cols = {ColSpec{ref::boxPoly(40, 1, ref::P{0, 0}, 0)}};
            if (r.chance(0.5)) f.vel = P{r.d(-1, 1), r.d(-.5, .5)};
            if (r.chance(0.2)) f.w = r.d(-.1, .1);
            s.bodies.push_back(f);
        }
        if (r.chance(0.3))
        { // an anchor: nothing but a place
            BodySpec a;
            a.dominance = 0;
            a.pos = s.bodies[0].pos + P{r.d(-1, 1), r.d(-1, 1)};
            s.bodies.push_back(a);
            if (s.bodies[0].dominance != 0)
            {
                JointSpec j;
                j.kind = r.chance(0.5) ? JointSpec::hinge : JointSpec::distance;
                j.a = int(s.bodies.size()) - 1;
                j.b = 0;
                j.p0 = P{ref::v2(a.pos)};
                j.p1 = P{ref::v2(s.bodies[0].pos + P{0.3, 0})};
                j.hi = float(ref::norm(j.p1 - j.p0));
                s.joints.push_back(j);
                ctx.count("bare_anchors");
            }
        }
        for (auto& b : s.bodies)
            for (auto& c : b.cols) c.mat.friction = CombinableProperty{r.f(0, 1)};
        Built b{s};
        b.w.makeForceField<LinearField>(ref::v2(P{r.d(-5, 5), r.d(-5, 5)}));
        int structural = 0;
        for (Body* x : b.bodies) structural += x->isStructural();
        if (!structural) return;
        // refused joints leave no trace
        int steps = ctx.thorough ? 60 : 30;
        Hash h;
        std::vector<Vec2> v;
        std::vector<float> w;
        for (Body* x : b.bodies) v.push_back(x->velocity()), w.push_back(x->angularVelocity());
        for (int k = 0; k < steps; ++k)
        {
            if (r.chance(0.1))
            {
                std::vector<Body*> st;
                for (Body* x : b.bodies)
                    if (x->isStructural()) st.push_back(x);
                Body *p = r.pick(st), *q = r.pick(st);
                size_t nc = 0, np = 0, nq = 0;
                auto census = [&] {
                    nc = np = nq = 0;
                    for (auto& c : b.w.constraints()) (void)c, ++nc;
                    for (auto* c : p->constraints()) (void)c, ++np;
                    for (auto* c : q->constraints()) (void)c, ++nq;
                };
                census();
                size_t oc = nc, op = np, oq = nq;
                bool threw = false;
                try
                {
                    switch (r.i(0, 3))
                    {
                        case 0: b.w.makeConstraint<HingeConstraint>(Bodies{p, q}, p->position()); break;
                        case 1: b.w.makeConstraint<RotationConstraint>(Bodies{p, q}); break;
                        case 2: b.w.makeConstraint<WeldConstraint>(Bodies{p, q}); break;
                        default:
                        {
                            Body* f = b.bodies[0];
                            census();
                            if (f == p) { b.w.makeConstraint<RotationConstraint>(Bodies{p, q}); break; }
                            b.w.makeConstraint<HingeConstraint>(Bodies({p, f}, Bodies::Dominance{0.f, 0.f}), p->position());
                        }
                    }
                }
                catch (const simu::Exception&) { threw = true; }
                census();
                VF_CHECK(ctx, threw, "not-refused", "a constraint between structural bodies only was accepted");
                VF_CHECK(ctx, nc == oc && np == op && nq == oq, "refused-trace", "a refused constraint left a trace in the world or a body");
                ctx.count("refused");
            }
            if (r.chance(0.1))
                for (size_t i = 0; i < b.bodies.size(); ++i)
                    if (b.bodies[i]->isStructural() && r.chance(0.5))
                    {
                        b.bodies[i]->setVelocity(r.chance(0.5) ? Vec2{} : Vec2{r.f(-1, 1), r.f(-1, 1)});
                        v[i] = b.bodies[i]->velocity();
                    }
            auto before = b.snaps();
            float dt = stepLength(r);
            b.w.step(dt);
            for (size_t i = 0; i < b.bodies.size(); ++i)
            {
                Body* x = b.bodies[i];
                if (!x->isStructural()) { if (!same(before[i].v, x->velocity())) ctx.count("partners_driven"); continue; }
                VF_CHECK(ctx, same(x->velocity(), v[i]) && x->angularVelocity() == w[i], "velocity", "step %d: a structural body went from (%g %g) w %g to (%g %g) w %g", k,
                         double(v[i][0]), double(v[i][1]), double(w[i]), double(x->velocity()[0]), double(x->velocity()[1]), double(x->angularVelocity()));
                P e = P{before[i].x} + P{v[i]} * double(dt);
                double eth = double(before[i].th) + double(w[i]) * double(dt);
                VF_CHECK(ctx, ref::norm(P{x->position()} - e) <= 4e-7 * (1 + ref::norm(e)) && std::abs(x->orientation() - eth) <= 2e-7 * (1 + std::abs(eth)), "placement",
                         "step %d: a structural body is at (%.9g %.9g) th %.9g, its own motion leads to (%.9g %.9g) th %.9g", k, double(x->position()[0]), double(x->position()[1]),
                         double(x->orientation()), e.x, e.y, eth);
                if (same(v[i], Vec2{}) && w[i] == 0)
                {
                    VF_CHECK(ctx, same(x->position(), before[i].x) && x->orientation() == before[i].th, "rest", "step %d: a resting structural body moved", k);
                    ctx.count("resting_judged");
                }
                else ctx.count("moving_judged");
            }
            for (auto& c : b.w.contacts()) if (c.bodies()[0]->isStructural() || c.bodies()[1]->isStructural()) ctx.count("contacts");
            h.add(b.bodies.back()->position()[0]).add(b.bodies[0]->position()[0]);
            if (!tame(b)) break;
        }
        ctx.state(h);
        return;
    }
    // response of two bodies to what they share
    Scene s;
    bool contact = scenario == 5;
    for (int k = 0; k < 2; ++k)
    {
        BodySpec b;
        b.pos = P{r.d(-3, 3), r.d(-3, 3)};
        if (k == 1) b.pos = s.bodies[0].pos + (contact ? rot(P{0.75, 0}, r.d(0, 6.3)) : rot(P{2, 0}, r.d(0, 6.3)));
        b.angle = r.d(-3, 3);
        b.vel = P{r.d(-2, 2), r.d(-2, 2)};
        b.w = r.d(-2, 2);
        ColSpec c{shape(r, r.d(0.8, 1.3), P{}, r.i(0, 1) * 4)};
        c.mat.density = r.logf_(0.3, 5);
        c.mat.friction = CombinableProperty{r.f(0, 1)};
        c.mat.bounciness = CombinableProperty{r.f(0, 1)};
        b.cols = {c};
        if (r.chance(0.8)) b.dominance = r.f(0.1f, 4);
        s.bodies.push_back(b);
    }
    if (!contact)
    {
        JointSpec j;
        int k = r.i(0, 3);
        j.kind = k == 0 ? JointSpec::hinge : k == 1 ? JointSpec::weld : k == 2 ? JointSpec::distance : JointSpec::rotation;
        if (r.chance(0.5)) j.a = 1, j.b = 0;
        else j.b = 1;
        j.p0 = P{ref::v2(s.bodies[size_t(j.a)].pos + P{r.d(-1, 1), r.d(-1, 1)})};
        j.p1 = P{ref::v2(s.bodies[size_t(j.b)].pos + P{r.d(-1, 1), r.d(-1, 1)})};
        j.lo = j.hi = float(ref::norm(j.p1 - j.p0));
        if (r.chance(0.5))
        {
            j.dom = std::array<float, 2>{r.f(0.1f, 4), r.f(0.1f, 4)};
            if (r.chance(0.2)) (*j.dom)[0] = 0;
            else if (r.chance(0.2)) (*j.dom)[1] = 0;
            if (r.chance(0.3)) s.bodies[size_t(j.a)].dominance = 0; // replaced for this joint
        }
        s.joints.push_back(j);
    }
    s.settings = randomSettings(r);
    s.settings.nPositionIterations = 0;
    Built b{s};
    double gap = 0;
    b.w.setContactFactory(watching([&](WatchedContact& c) {
        ContactInfo i = c.contactInfo();
        for (Uint32 k = 0; k < i.nContacts; ++k) gap = std::max(gap, ref::norm(P{i.refContacts[k]} - P{i.incContacts[k]}));
    }));
    std::array<double, 2> dom{double(s.bodies[0].dominance), double(s.bodies[1].dominance)};
    if (!contact && s.joints[0].dom) dom[size_t(s.joints[0].a)] = (*s.joints[0].dom)[0], dom[size_t(s.joints[0].b)] = (*s.joints[0].dom)[1];
    Hash h;
    for (int k = 0; k < 6; ++k)
    {
        auto s0 = mech(b.bodies);
        gap = 0;
        b.w.step(0.01f);
        if (!contact) gap = s.joints[0].kind == JointSpec::hinge || s.joints[0].kind == JointSpec::weld ? b.gap(b.joints[0]) + 0.03 : 0;
        auto s1 = mech(b.bodies);
        double scale = 0, push = 0;
        for (size_t i = 0; i < 2; ++i)
        {
            double m = dom[i] > 0 ? s0[i].m / dom[i] : 0;
            scale += m * (ref::norm(s0[i].v) + ref::norm(s1[i].v)) + (dom[i] > 0 ? s0[i].I / dom[i] : 0) * (std::abs(s0[i].w) + std::abs(s1[i].w));
            push += m * ref::norm(s1[i].v - s0[i].v);
            // opposite impulses at two contact points leave only spin
            if (dom[i] > 0) push += 5 * s0[i].I / dom[i] * std::abs(s1[i].w - s0[i].w);
            if (dom[i] == 0)
            {
                VF_CHECK(ctx, s1[i].w == s0[i].w && s1[i].v == s0[i].v, "override-structural", "a body made structural by the joint's dominance was moved by the joint");
                ctx.count("structural_by_override");
            }
        }
        if (dom[0] > 0 && dom[1] > 0)
        {
            P dp;
            double dL = 0;
            P mid = (s0[0].c + s0[1].c) * 0.5;
            for (size_t i = 0; i < 2; ++i)
            {
                P dv = s1[i].v - s0[i].v;
                dp = dp + dv * (s0[i].m / dom[i]);
                dL += (ref::cross(s0[i].c - mid, dv) * s0[i].m + s0[i].I * (s1[i].w - s0[i].w)) / dom[i];
            }
            ctx.log("step %d dp %g dL %g scale %g gap %g push %g contact %d", k, ref::norm(dp), dL, scale, gap, push, int(contact));
            ctx.max("p_err", ref::norm(dp) / (scale + 1e-9));
            ctx.max("L_err", std::abs(dL) / (5 * scale + gap * push * 1e5 + 1e-9));
            VF_CHECK(ctx, ref::norm(dp) <= 5e-6 * scale, "response", "step %d: responses (%g %g) and (%g %g) are not as dominance over mass: %g/%g, %g/%g", k, s1[0].v.x - s0[0].v.x, s1[0].v.y - s0[0].v.y,
                     s1[1].v.x - s0[1].v.x, s1[1].v.y - s0[1].v.y, dom[0], s0[0].m, dom[1], s0[1].m);
            VF_CHECK(ctx, std::abs(dL) <= 5e-5 * scale + gap * push * 2, "turn-response", "step %d: spins changed by %g and %g with inertia %g and %g, dominances %g and %g", k, s1[0].w - s0[0].w,
                     s1[1].w - s0[1].w, s0[0].I, s0[1].I, dom[0], dom[1]);
            if (push > 1e-3 * scale) ctx.count(contact ? "contact_responses" : "joint_responses");
        }
        else if (push > 1e-3 * scale) ctx.count("joint_responses");
        h.add(s1[0].v.x);
    }
    ctx.state(h);
}

// ---------------------------------------------------------------------------
namespace
{
void describe(Ctx& ctx, const Built& b)
{
    for (Body* x : b.bodies)
        ctx.log("body m %g I %g at (%g %g) v (%g %g) w %g structural %d", double(x->mass()), double(x->inertia()), double(x->position()[0]), double(x->position()[1]),
                double(x->velocity()[0]), double(x->velocity()[1]), double(x->angularVelocity()), int(x->isStructural()));
    for (auto& j : b.joints)
        ctx.log("joint kind %d %d-%d lo %g hi %g contacts %d gap %g twist %g", int(j.spec.kind), j.spec.a, j.spec.b, j.spec.lo ? double(*j.spec.lo) : -1, j.spec.hi ? double(*j.spec.hi) : -1, int(!j.spec.noContacts), b.gap(j), b.twist(j));
}
// Any documented way to say the same distance
Constraint* makeDistance(World& w, const Bodies& b, std::array<Vec2, 2> p, int way, float d, bool dis)
{
    switch (way)
    {
        case 0: return w.makeConstraint<DistanceConstraint>(b, p, dis);
        case 1: return w.makeConstraint<DistanceConstraint>(b, p, d, dis);
        case 2: return w.makeConstraint<DistanceConstraint>(b, p, std::optional<float>{d}, std::optional<float>{d}, dis);
        default: return w.makeConstraint<DistanceConstraint>(b, p);
    }
}
} // namespace
VF_PROPERTY(C03)
{
    Rng& r = ctx.rng;
    int scenario = r.i(0, 6);
    Hash h;
    if (scenario == 6)
    { // one joint between two bodies: the relation holds for the velocities too, and limits only act one way
        SceneOptions o;
        o.minBodies = o.maxBodies = 2;
        o.structural = r.chance(0.5);
        o.massRatio = 5;
        Scene s = jointedScene(r, o);
        if (s.joints.empty()) return;
        auto& sp = s.joints[0];
        if (sp.kind == JointSpec::distance && r.chance(0.5))
        { // some slack, to enter and leave the limits
            double d = ref::norm(sp.p1 - sp.p0);
            if (sp.hi && !(sp.lo && *sp.lo == *sp.hi)) sp.hi = float(d * r.d(1, 1.1));
        }
        s.settings.nVelocityIterations = Uint32(r.i(4, 12));
        s.settings.nPositionIterations = Uint32(r.i(0, 3));
        s.settings.enableWarmstarting = r.chance(0.7);
        Built b{s};
        auto& j = b.joints[0];
        Body *b0 = b.bodies[size_t(sp.a)], *b1 = b.bodies[size_t(sp.b)];
        bool exact = sp.kind != JointSpec::distance || (sp.lo && sp.hi && *sp.lo == *sp.hi);
        ForceField* field = nullptr;
        P g;
        for (int k = 0; k < 60; ++k)
        {
            if (r.chance(0.06))
            {
                if (field) field->kill(), field = nullptr, g = P{};
                else g = P{r.d(-10, 10), r.d(-10, 10)}, field = b.w.makeForceField<Gravity>(ref::v2(g));
            }
            if (r.chance(0.05))
                for (Body* x : b.bodies)
                    if (!x->isStructural()) x->applyImpulse(ref::v2(P{r.d(-2, 2), r.d(-2, 2)} * double(x->mass())));
            double dt = r.chance(0.9) ? 1. / 60 : r.d(0.005, 0.02);
            P a0 = b.anchor(j, 0), a1 = b.anchor(j, 1), d = a1 - a0;
            double len = ref::norm(d);
            auto rate = [&](bool after) {
                P v0{b0->velocity()}, v1{b1->velocity()};
                if (!after) v0 = v0 + (b0->isStructural() ? P{} : g * dt), v1 = v1 + (b1->isStructural() ? P{} : g * dt);
                return std::pair{v1 - v0, double(b1->angularVelocity()) - double(b0->angularVelocity())};
            };
            // speed of the anchors, where the bodies are before the step
            P r0 = a0 - P{b0->centroid()}, r1 = a1 - P{b1->centroid()};
            auto anchorRate = [&](bool after) {
                auto [v, w] = rate(after);
                (void)w;
                double w0 = b0->angularVelocity(), w1 = b1->angularVelocity();
                return v + P{-r1.y * w1, r1.x * w1} - P{-r0.y * w0, r0.x * w0};
            };
            P before = anchorRate(false);
            double scale = 1 + ref::norm(before) + std::abs(double(b0->angularVelocity())) + std::abs(double(b1->angularVelocity()));
            double dw0 = rate(false).second;
            b.w.step(float(dt));
            // the anchors' arms are those from before the step
            P after = anchorRate(true);
            double dw = rate(true).second;
            double tol = 1e-4 * scale, e = 0;
            if (sp.kind == JointSpec::hinge) e = ref::norm(after);
            else if (sp.kind == JointSpec::weld) e = std::max(ref::norm(after), std::abs(dw));
            else if (sp.kind == JointSpec::rotation) e = std::abs(dw);
            else
            {
                if (len < 0.1) break;
                P u = d * (1 / len);
                double s0 = ref::dot(before, u), s1 = ref::dot(after, u), want = s0;
                bool low = sp.lo && len <= *sp.lo, high = sp.hi && len >= *sp.hi;
                if (!exact && ((sp.lo && std::abs(len - *sp.lo) < 1e-5 * (1 + len)) || (sp.hi && std::abs(len - *sp.hi) < 1e-5 * (1 + len)))) continue;
                if (exact) want = 0;
                else if (low) want = std::max(s0, 0.0);
                else if (high) want = std::min(s0, 0.0);
                e = std::abs(s1 - want);
                if (!exact) ctx.count(low || high ? (s0 > 0) == high ? "limit_stopped" : "limit_let_go" : "limit_slack");
            }
            (void)dw0;
            ctx.log("step %d kind %d e %g len %g lo %g hi %g", k, int(sp.kind), e, len, sp.lo ? double(*sp.lo) : -1, sp.hi ? double(*sp.hi) : -1);
            ctx.max(exact ? "rate_exact" : "rate_limit", e / scale);
            VF_CHECK(ctx, e <= tol, exact ? "rate" : "limit-rate", "step %d: a joint of kind %d leaves its relation changing at a rate wrong by %g", k, int(sp.kind), e);
            ctx.count("rates");
            h.add(e);
        }
        ctx.state(h);
        return;
    }
    if (scenario == 0)
    { // a limit that is not reached does not influence motion
        SceneOptions o;
        o.structural = r.chance(0.3);
        Scene s = jointedScene(r, o);
        if (r.chance(0.5)) s.gravities.push_back(P{0, -10});
        s.settings = randomSettings(r);
        Built a{s}, b{s};
        int slack = r.i(1, 3), made = 0;
        std::vector<std::pair<JointSpec, size_t>> limits;
        for (int k = 0; k < slack; ++k)
        {
            JointSpec j;
            j.kind = JointSpec::distance;
            j.noContacts = false;
            j.a = r.i(0, int(s.bodies.size()) - 1);
            j.b = r.i(0, int(s.bodies.size()) - 1);
            if (j.a == j.b || (s.bodies[size_t(j.a)].dominance == 0 && s.bodies[size_t(j.b)].dominance == 0)) continue;
            j.p0 = P{ref::v2(s.bodies[size_t(j.a)].pos + P{r.d(-.5, .5), r.d(-.5, .5)})};
            j.p1 = P{ref::v2(s.bodies[size_t(j.b)].pos + P{r.d(-.5, .5), r.d(-.5, .5)})};
            double d = ref::norm(j.p1 - j.p0);
            if (r.chance(0.7)) j.hi = float(d + r.d(0.05, 3));
            if (!j.hi || r.chance(0.5)) j.lo = float(d - r.d(0.05, 1));
            if (j.lo && *j.lo <= 0.01) continue;
            b.joints.push_back(makeJoint(b.w, b.bodies, j));
            ++made;
        }
        if (!made) return;
        for (int k = 0; k < 40; ++k)
        {
            for (size_t i = s.joints.size(); i < b.joints.size(); ++i)
            { // about to be reached: stop
                auto& j = b.joints[i];
                double d = ref::norm(b.anchor(j, 1) - b.anchor(j, 0));
                if ((j.spec.hi && d > *j.spec.hi - 1e-4) || (j.spec.lo && d < *j.spec.lo + 1e-4)) { ctx.state(h); return; }
            }
            float dt = 1.f / 60;
            a.w.step(dt);
            b.w.step(dt);
            for (size_t i = 0; i < a.bodies.size(); ++i)
            {
                Snap x{a.bodies[i]}, y{b.bodies[i]};
                h.add(x.x[0]);
                VF_CHECK(ctx, x == y, "slack", "step %d: limits that are not reached changed the motion of body %zu: (%.9g %.9g) to (%.9g %.9g)", k, i, double(x.x[0]), double(x.x[1]), double(y.x[0]), double(y.x[1]));
            }
            ctx.count("slack_steps");
        }
        ctx.state(h);
        return;
    }
    if (scenario == 1)
    { // disturbed joints come back
        Scene s;
        SceneOptions o;
        o.maxBodies = 2;
        o.structural = r.chance(0.4);
        o.speed = 0.3;
        o.massRatio = 5;
        s = jointedScene(r, o);
        for (auto& b : s.bodies)
            if (b.dominance == 0) b.vel = P{}, b.w = 0;
        if (s.joints.empty()) return;
        bool lengths = r.chance(0.5);
        if (lengths)
            for (auto& j : s.joints)
                if (j.kind == JointSpec::distance)
                { // the wanted distance is not the present one
                    double d = ref::norm(j.p1 - j.p0);
                    switch (r.i(0, 2))
                    {
                        case 0: j.lo = j.hi = float(d * r.d(0.7, 1.3)); break;
                        case 1: j.hi = float(d * r.d(0.7, 0.95)); j.lo.reset(); break;
                        default: j.lo = float(d * r.d(1.05, 1.3)); j.hi.reset();
                    }
                }
        Built b{s};
        if (!lengths)
        { // drift, without corrections
            World::Settings st;
            st.nPositionIterations = 0;
            b.w.updateSettings(st);
            for (Body* x : b.bodies)
                if (!x->isStructural()) x->setVelocity(x->velocity() + Vec2{r.f(-4, 4), r.f(-4, 4)}), x->setAngularVelocity(r.f(-4, 4));
            for (int k = 0; k < 20; ++k) b.w.step(1.f / 60);
            b.w.updateSettings(World::Settings{});
            for (Body* x : b.bodies)
                if (!x->isStructural()) x->setVelocity(x->velocity() * 0.1f), x->setAngularVelocity(x->angularVelocity() * 0.1f);
        }
        describe(ctx, b);
        double start = 0;
        for (auto& j : b.joints) start = std::max({start, b.gap(j), b.twist(j)});
        ctx.max("disturbance", start);
        for (int k = 0; k < 120; ++k)
        {
            b.w.step(1.f / 60);
            double worst = 0;
            for (auto& j : b.joints) worst = std::max({worst, b.gap(j), b.twist(j)});
            ctx.log("step %d worst %g", k, worst);
            if (k == 60) ctx.max("left_after_60", worst / (start + 0.01));
            if (k >= 60)
                VF_CHECK(ctx, worst <= 0.04 + 0.03 * start, "not-recovered", "%d steps after a disturbance of %g a joint is still %g from its relation", k, start, worst);
            h.add(worst);
        }
        if (start > 0.01) ctx.count("disturbances");
        ctx.state(h);
        return;
    }
    if (scenario == 2)
    { // every way of building
        World w;
        std::array<Body*, 2> bs;
        for (int k = 0; k < 2; ++k)
        {
            BodySpec b;
            b.pos = P{k * 2.0 + r.d(-.3, .3), r.d(-.3, .3)};
            b.angle = r.d(-3, 3);
            b.vel = P{r.d(-1, 1), r.d(-1, 1)};
            b.w = r.d(-1, 1);
            b.cols = {ColSpec{shape(r, 1)}};
            bs[size_t(k)] = addBody(w, b);
        }
        Bodies pair = r.chance(0.5) ? Bodies{bs[0], bs[1]} : Bodies{bs[1], bs[0]};
        bool dis = r.chance(0.5), expectDis = dis;
        std::array<Vec2, 2> p{pair[0]->centroid() + Vec2{r.f(-.3f, .3f), 0}, pair[1]->centroid() + Vec2{0, r.f(-.3f, .3f)}};
        float d = norm(p[1] - p[0]);
        int way = r.i(0, 9);
        P l0 = localOf(pair[0], P{p[0]}), l1 = localOf(pair[1], P{p[1]});
        double rel = double(pair[1]->orientation()) - double(pair[0]->orientation());
        Constraint* c;
        std::optional<double> lo, hi;
        bool turn = false;
        switch (way)
        {
            case 0: case 1: case 2:
                c = makeDistance(w, pair, p, way, d, dis);
                lo = hi = d;
                break;
            case 3:
                c = makeDistance(w, pair, p, 3, d, dis);
                expectDis = true;
                lo = hi = d;
                break;
            case 4: c = w.makeConstraint<DistanceConstraint>(pair, p, std::optional<float>{d * 0.99f}, std::optional<float>{}, dis); lo = d * 0.99f; break;
            case 5: c = w.makeConstraint<DistanceConstraint>(pair, p, std::optional<float>{}, std::optional<float>{d * 1.01f}, dis); hi = d * 1.01f; break;
            case 6: c = w.makeConstraint<DistanceConstraint>(pair, p, std::optional<float>{d * 0.98f}, std::optional<float>{d * 1.02f}, dis); lo = d * 0.98f, hi = d * 1.02f; break;
            case 7:
                c = w.makeConstraint<HingeConstraint>(pair, p[0], dis);
                l1 = localOf(pair[1], P{p[0]});
                hi = 0;
                break;
            case 8:
            {
                P mid = (P{pair[0]->centroid()} + P{pair[1]->centroid()}) * 0.5;
                l0 = localOf(pair[0], mid), l1 = localOf(pair[1], mid);
                hi = 0;
                turn = true;
                c = r.chance(0.3) ? (expectDis = true, w.makeConstraint<WeldConstraint>(pair)) : w.makeConstraint<WeldConstraint>(pair, dis);
                break;
            }
            default:
                turn = true;
                c = r.chance(0.3) ? (expectDis = true, w.makeConstraint<RotationConstraint>(pair)) : w.makeConstraint<RotationConstraint>(pair, dis);
        }
        static const char* names[10] = {"way_points", "way_distance", "way_equal_limits", "way_default", "way_min", "way_max", "way_both", "way_hinge", "way_weld", "way_rotation"};
        ctx.count(names[way]);
        VF_CHECK(ctx, c->disablesContacts() == expectDis, "disables", "a joint asked %s to disable contacts says otherwise", expectDis ? "" : "not");
        for (int k = 0; k < 60; ++k)
        {
            w.step(1.f / 60);
            double len = ref::norm(worldOf(pair[0], l0) - worldOf(pair[1], l1));
            double e = std::max({0.0, lo ? *lo - len : 0.0, hi ? len - *hi : 0.0});
            double t = turn ? std::abs(double(pair[1]->orientation()) - double(pair[0]->orientation()) - rel) : 0;
            ctx.max("way_gap", e);
            ctx.max("way_twist", t);
            VF_CHECK(ctx, e <= 0.1, "way-gap", "step %d: a joint built in way %d is %g away from its relation", k, way, e);
            VF_CHECK(ctx, t <= (expectDis ? 1e-4 : 0.1), "way-twist", "step %d: a joint built in way %d lets the angle drift by %g", k, way, t);
            h.add(e);
        }
        ctx.state(h);
        return;
    }
    // joints hold under ordinary loads
    SceneOptions o;
    o.structural = false;
    o.minBodies = 1;
    bool converge = r.chance(0.3); // enough iterations that the solver's error does not matter
    o.maxBodies = converge ? 6 : 2;
    o.massRatio = converge ? 10 : 1.2;
    o.spacing = r.d(0.9, 1.3);
    o.speed = r.chance(0.5) ? 0 : 1;
    if (r.chance(0.6)) o.joint = r.i(0, 6);
    Scene s = jointedScene(r, o);
    if (r.chance(0.8))
    { // hung on a structural body
        BodySpec a;
        a.dominance = 0;
        a.pos = s.bodies[0].pos + P{-1.5, r.d(0, 1)};
        a.cols = {ColSpec{ref::boxPoly(0.5, 0.5, ref::P{0, 0}, 0)}};
        s.bodies.push_back(a);
        JointSpec j;
        j.kind = JointSpec::hinge;
        j.a = int(s.bodies.size()) - 1;
        j.b = 0;
        if (r.chance(0.5)) std::swap(j.a, j.b);
        j.p0 = P{ref::v2((a.pos + s.bodies[0].pos) * 0.5)};
        s.joints.push_back(j);
        ctx.count("hung");
    }
    if (s.joints.empty()) return;
    s.gravities.push_back(P{0, -10});
    if (converge) s.settings.nVelocityIterations = 150, s.settings.nPositionIterations = 50;
    Built b{s};
    describe(ctx, b);
    int steps = 200, quiet = 60;
    std::vector<double> worst(b.joints.size(), 0), sum(b.joints.size(), 0);
    for (int k = 0; k < steps; ++k)
    {
        if (r.chance(0.01))
        {
            Body* x = r.pick(b.bodies);
            if (!x->isStructural()) x->applyImpulse(ref::v2(P{r.d(-1, 1), r.d(-1, 1)} * double(x->mass())));
        }
        b.w.step(1.f / 60);
        bool touching = false;
        for (auto& c : b.w.contacts()) touching |= c.contactInfo().nContacts > 0;
        quiet = touching ? 0 : quiet + 1;
        for (size_t i = 0; i < b.joints.size(); ++i)
        {
            double g = b.gap(b.joints[i]), t = b.twist(b.joints[i]);
            auto& sp = b.joints[i].spec;
            bool exact = sp.kind != JointSpec::distance || (sp.lo && sp.hi && *sp.lo == *sp.hi);
            worst[i] = std::max(worst[i], g + t);
            sum[i] += g + t;
            if (quiet < 60) continue; // a contact may contradict the joints
            const char* size = converge ? "converged" : b.joints.size() == 1 ? "single" : "pair";
            ctx.max((std::string(exact ? "exact_" : "limit_") + size).c_str(), g + t);
            // several joints share the solver's residual: their mean is judged below
            double bound = b.joints.size() == 1 ? (exact ? 5e-4 : 0.12) : 5;
            VF_CHECK(ctx, g <= bound, exact ? "gap" : "limit-gap", "step %d: joint %zu (kind %d) is %g apart", k, i, int(sp.kind), g);
            VF_CHECK(ctx, t <= bound, "twist", "step %d: joint %zu (kind %d) is turned by %g", k, i, int(sp.kind), t);
            ctx.count("held");
        }
    }
    for (size_t i = 0; i < worst.size(); ++i)
    {
        ctx.max(converge ? "mean_converged" : "mean_default", sum[i] / steps);
        VF_CHECK(ctx, sum[i] / steps <= (b.joints.size() == 1 ? 0.12 : converge ? 2 : 1.5), "mean", "joint %zu (kind %d) was %g from its relation on average", i, int(b.joints[i].spec.kind), sum[i] / steps);
    }
    for (size_t i = 0; i < worst.size(); ++i) h.add(worst[i]);
    ctx.count("joints", double(b.joints.size()));
    ctx.state(h);
}

// ---------------------------------------------------------------------------
VF_PROPERTY(C04)
{
    Rng& r = ctx.rng;
    World w;
    BodySpec s;
    s.pos = P{r.d(-5, 5), r.d(-5, 5)};
    s.angle = r.d(-3, 3);
    s.vel = r.chance(0.3) ? P{} : P{r.d(-5, 5), r.d(-5, 5)};
    s.w = r.chance(0.3) ? 0 : r.d(-5, 5);
    ColSpec c{shape(r, r.d(0.5, 2), P{r.d(-.5, .5), r.d(-.5, .5)})};
    c.mat.density = r.logf_(0.2, 10);
    s.cols = {c};
    Body* b = addBody(w, s);
    double m = b->mass(), I = b->inertia();
    World::Settings st;
    st.nVelocityIterations = Uint32(r.i(1, 10));
    st.nPositionIterations = Uint32(r.i(0, 3));
    st.enableWarmstarting = r.chance(0.6);
    w.updateSettings(st);
    bool gravity = r.chance(0.3);
    P g;
    if (gravity) g = P{r.d(-10, 10), r.d(-10, 10)}, w.makeForceField<Gravity>(ref::v2(g));
    int which = r.i(0, 2); // rotation, translation, both
    float maxV = r.chance(0.1) ? 0.f : r.f(0.1f, 6), maxW = r.chance(0.1) ? 0.f : r.f(0.1f, 6);
    double F = 0, T = 0;
    RotationMotor* rm = nullptr;
    TranslationMotor* tm = nullptr;
    if (which != 1)
    {
        int way = r.i(0, 3);
        float t = r.logf_(0.05, 200);
        switch (way)
        {
            case 0: rm = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), RotationMotor::Specs::fromTorque(maxW, t)); T = t; break;
            case 1: rm = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), RotationMotor::Specs::fromAccel(maxW, t)); T = double(t) * I; break;
            case 2:
            {
                float target = r.f(0.1f, 3);
                rm = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), RotationMotor::Specs::fromAccel(maxW, t, target));
                T = double(t) * target;
                break;
            }
            default:
            {
                float rad = r.f(0.1f, 3);
                rm = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), RotationMotor::Specs::fromTargetForce(maxW, rad, t));
                T = double(t) * rad;
            }
        }
        VF_CHECK(ctx, rm->throttle() == 1.f, "throttle-default", "a new motor has throttle %g", double(rm->throttle()));
    }
    if (which != 0)
    {
        int way = r.i(0, 2);
        float f = r.logf_(0.05, 500);
        switch (way)
        {
            case 0: tm = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromForce(maxV, f)); F = f; break;
            case 1: tm = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromAccel(maxV, f)); F = double(f) * m; break;
            default:
            {
                float target = r.f(0.1f, 3);
                tm = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromAccel(maxV, f, target));
                F = double(f) * target;
            }
        }
    }
    auto newThrottle = [&](auto* mo) {
        float t = r.pick<float>({0.f, 1.f, r.f(0, 1), r.f(0, 1), r.f(-3, 0), r.f(1, 4)});
        mo->throttle(t);
        float e = t < 0 ? 0.f : t > 1 ? 1.f : t;
        VF_CHECK(ctx, mo->throttle() == e, "throttle", "throttle set to %g reads %g", double(t), double(mo->throttle()));
    };
    auto newDirection = [&] {
        if (rm)
        {
            float d = r.pick<float>({0.f, 1.f, -1.f, r.f(-5, 5)});
            rm->direction(RotationMotor::Value{d});
            float e = d == 0 ? 0.f : d > 0 ? 1.f : -1.f;
            VF_CHECK(ctx, std::abs(rm->direction()[0] - e) <= 1e-6, "direction", "direction set to %g reads %g", double(d), double(rm->direction()[0]));
        }
        if (tm)
        {
            Vec2 d = r.chance(0.15) ? Vec2{} : r.chance(0.2) ? Vec2{r.chance(0.5) ? 1.f : -1.f, 0} : Vec2{r.f(-5, 5), r.f(-5, 5)};
            tm->direction(d);
            double n = ref::norm(P{d});
            P e = n == 0 ? P{} : P{d} * (1 / n);
            VF_CHECK(ctx, ref::norm(P{tm->direction()} - e) <= 1e-6, "direction", "direction set to (%g %g) reads (%g %g)", double(d[0]), double(d[1]), double(tm->direction()[0]), double(tm->direction()[1]));
        }
    };
    newDirection();
    Hash h;
    int steps = ctx.thorough ? 80 : 40;
    int steady = 0;
    for (int k = 0; k < steps; ++k)
    {
        if (r.chance(0.12)) { newDirection(); steady = 0; }
        if (rm && r.chance(0.1)) newThrottle(rm);
        if (tm && r.chance(0.1)) newThrottle(tm);
        if (r.chance(0.05)) b->setVelocity(Vec2{r.f(-5, 5), r.f(-5, 5)}), b->setAngularVelocity(r.f(-5, 5));
        float dt = r.pick<float>({1.f / 60, 0.01f, r.f(0.001f, 0.1f)});
        P v0 = P{b->velocity()} + g * double(dt), e = v0;
        double w0 = b->angularVelocity(), ew = w0;
        w.step(dt);
        if (tm)
        {
            P d{tm->direction()};
            double cap = double(tm->throttle()) * F * dt / m, along = ref::dot(v0, d);
            double push = ref::norm(d) == 0 ? 0 : std::min(std::max(double(maxV) - along, 0.0), cap);
            e = v0 + d * push;
            if (push > 0) ctx.count(push == cap ? "force_limited" : "speed_limited");
            else ctx.count("motor_idle");
        }
        if (rm)
        {
            double d = rm->direction()[0], cap = double(rm->throttle()) * T * dt / I;
            double push = d == 0 ? 0 : std::min(std::max(double(maxW) - w0 * d, 0.0), cap);
            ew = w0 + d * push;
            if (push > 0) ctx.count(push == cap ? "torque_limited" : "spin_limited");
            else ctx.count("motor_idle");
        }
        P v1{b->velocity()};
        double w1 = b->angularVelocity();
        double tv = 1e-5 * (ref::norm(v0) + ref::norm(e) + double(maxV)) + 5e-6, tw = 1e-5 * (std::abs(w0) + std::abs(ew) + double(maxW)) + 5e-6;
        VF_CHECK(ctx, ref::norm(v1 - e) <= tv, "velocity", "step %d: motor took (%.9g %.9g) to (%.9g %.9g), expected (%.9g %.9g), maximum speed %g force %g mass %g throttle %g dt %g", k, v0.x, v0.y, v1.x, v1.y,
                 e.x, e.y, double(maxV), F, m, tm ? double(tm->throttle()) : 0., double(dt));
        VF_CHECK(ctx, std::abs(w1 - ew) <= tw, "spin", "step %d: motor took spin %.9g to %.9g, expected %.9g, maximum %g torque %g inertia %g throttle %g dt %g", k, w0, w1, ew, double(maxW), T, I,
                 rm ? double(rm->throttle()) : 0., double(dt));
        ctx.count("steps");
        h.add(v1.x).add(w1);
    }
    ctx.state(h);
}
