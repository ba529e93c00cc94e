// C50: the results do not depend on the number of MPI ranks or on how they are scheduled.
// C51: the results do not depend on the order of device iterations or on separate memories.
#include "esc.hpp"
using namespace esc;

static dst::Trace gen_rank(Rng& r, int tier) {
    GenOpt g;
    g.maxn = tier ? 6 : 5;
    Scen s = generate(r, g);
    s.add("sched").set("ranks", std::to_string(r.range(2, 8))).set("seed", std::to_string(r.below(1u << 30)));
    return s.trace();
}
static dst::Trace gen_dev(Rng& r, int tier) {
    GenOpt g;
    g.maxn = tier ? 5 : 4;
    Scen s = generate(r, g);
    s.add("sched").set("ranks", std::to_string(r.chance(1, 2) ? 1 : r.range(2, 4))).set("seed", std::to_string(r.below(1u << 30))).set("order", std::to_string(r.range(1, 5))).set("split", std::to_string(r.below(3) != 0));
    return s.trace();
}
static void two(const Prob& p, const evp::Options& oa, const evp::Options& ob, const char* what, dst::Ctx& c) {
    auto f = files(p);
    auto a = evp::run(f, args(p), oa);
    oracle(a);
    auto b = evp::run(f, args(p), ob);
    oracle(b);
    account(c, a); account(c, b);
    if (a.how != b.how || a.code != b.code || a.what != b.what) dst::fail(std::string(what) + ": another outcome", evp::how_text(a) + " / " + evp::how_text(b));
    c.observe(evp::how_text(a));
    c.observe(std::to_string(b.order_hash));
    if (a.how != evp::Result::done) return;
    Report x = report_of(p, a, oa.ranks), y = report_of(p, b, ob.ranks);
    if (!x.ok) dst::fail("incomplete output: " + x.why, "reference run");
    if (!y.ok) dst::fail("incomplete output: " + y.why, std::to_string(ob.ranks) + " ranks");
    if (!(calm(x) && calm(y)) && !calm(x, 0.25) && !calm(y, 0.25)) return;
    need_same(what, p, x, y);
    c.ops["voxel"] += (long)p.cells(); c.ops["step"] += p.nsteps;
    c.nontrivial = ob.ranks > 1 || b.permuted > 0;
}
static void exec_rank(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    Prob p = problem(s);
    evp::Options a, b;
    b.ranks = fitting_ranks(p.n, (int)s.l("sched", "ranks", 1));
    b.seed = (uint64_t)s.l("sched", "seed"); b.shuffle = true;
    two(p, a, b, "other number of ranks", c);
}
static void exec_dev(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    Prob p = problem(s);
    evp::Options a, b;
    a.ranks = b.ranks = fitting_ranks(p.n, (int)s.l("sched", "ranks", 1));
    b.seed = (uint64_t)s.l("sched", "seed"); b.order = (int)s.l("sched", "order"); b.split = s.l("sched", "split");
    two(p, a, b, "other device schedule", c);
}
static dst::Register r50({"C50", gen_rank, exec_rank, nullptr});
static dst::Register r51({"C51", gen_dev, exec_dev, nullptr});
