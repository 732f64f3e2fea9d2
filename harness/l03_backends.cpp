// L03: linear solves through the configured back end (Ginkgo and PETSc stand-ins, and a user's own solver)
#include "linsys.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
#include "NeoFOAM/linearAlgebra/petsc.hpp"
#include "NeoFOAM/core/database/database.hpp"
using namespace FV;
FV_MAIN

namespace
{
using Node = gko::config::pnode;
using System = la::LinearSystem<scalar, localIdx>;

// ------------------------------------------------------------------------------- a solver of the user's own
struct Spy
{
    int created = 0, cloned = 0, destroyed = 0, solves = 0;
    int lastExec = -1, lastId = -1;
    const void *ls = nullptr, *x = nullptr;
    std::string label;
};
Spy spy;
class SpySolver : public la::SolverFactory::Register<SpySolver>
{
    using Base = la::SolverFactory::Register<SpySolver>;

public:
    SpySolver(const Executor& e, const Dictionary& d) : Base(e), id_(spy.created++), label_(d.get<std::string>("label")) { spy.lastExec = (int)e.index(); }
    SpySolver(const SpySolver& o) : Base(o.exec_), id_(spy.created++), label_(o.label_) { ++spy.cloned; }
    ~SpySolver() override { ++spy.destroyed; }
    static std::string name() { return "Spy"; }
    static std::string doc() { return "records"; }
    static std::string schema() { return "none"; }
    void solve(const System& ls, Field<scalar>& x) const override
    {
        ++spy.solves;
        spy.lastId = id_;
        spy.ls = &ls;
        spy.x = &x;
        spy.label = label_;
    }
    std::unique_ptr<la::SolverFactory> clone() const override { return std::make_unique<SpySolver>(*this); }

private:
    int id_;
    std::string label_;
};

// ------------------------------------------------------------------------------- settings
struct Setting
{
    Dictionary d;
    Node::map_type want;
};
struct Odd
{
    int v = 0;
};
void addValue(Rng& r, Setting& s, const std::string& k)
{
    switch (r.below(7))
    {
    case 0:
    {
        std::string v = r.pick<std::string>({"", "value", "solver::Cg", "with space", std::string("\0x", 2)});
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
        break;
    }
    case 1:
    {
        const char* v = r.pick({"text", "", "preconditioner::Jacobi"});
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
        break;
    }
    case 2:
    {
        int v = r.pick({0, 1, -1, 2147483647, -2147483647 - 1, 77});
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
        break;
    }
    case 3:
    {
        unsigned v = r.pick({0u, 1u, 4294967295u, 2147483648u, 12u});
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
        break;
    }
    case 4:
    {
        double v = r.pick({0.0, 1e-7, -2.5, 1e300, 4.9e-324});
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
        break;
    }
    case 5:
    {
        float v = r.pick({0.0f, 1.5f, -0.1f, 3.4e38f});
        s.d.insert(k, v);
        s.want.emplace(k, Node((double)v));
        break;
    }
    default:
    {
        int v = (int)r.range(-1000, 1000);
        s.d.insert(k, v);
        s.want.emplace(k, Node(v));
    }
    }
}
Setting settings(Rng& r, int depth)
{
    Setting s;
    int n = (int)r.below(r.chance(0.1) ? 20 : 6);
    for (int i = 0; i < n; ++i)
    {
        std::string k = r.pick<std::string>({"criteria", "iteration", "relative_residual_norm", "a", "b", "preconditioner", "x y", ""}) + std::to_string(i);
        if (depth > 0 && r.chance(0.35))
        {
            auto sub = settings(r, depth - 1);
            s.d.insert(k, sub.d);
            s.want.emplace(k, Node(sub.want));
            H::count("nested settings");
        }
        else addValue(r, s, k);
    }
    return s;
}
void expectNode(const Node& got, const Node& want, const std::string& w)
{
    H_CHECK(got == want, w << ": the back end gets " << got.text() << " instead of " << want.text());
    H::count("settings compared");
}
void parsing(Rng& r)
{
    auto s = settings(r, 3);
    const Dictionary& d = s.d;
    auto before = d.keys();
    expectNode(la::ginkgo::parse(d), Node(s.want), "settings");
    expectNode(la::ginkgo::parse(d), Node(s.want), "settings, asked for again");
    H_CHECK(d.keys() == before, "parsing changed the dictionary");
    // a value the back end has no kind for is refused, wherever it is
    std::string key = "odd" + std::to_string(r.below(100));
    Dictionary bad(s.d);
    int kind = (int)r.below(5);
    auto put = [&](Dictionary& t) {
        if (kind == 0) t.insert(key, Odd {});
        else if (kind == 1) t.insert(key, std::vector<double> {1.0});
        else if (kind == 2) t.insert(key, std::pair<int*, std::string> {});
        else if (kind == 3) t.insert(key, (short)3);
        else t.insert(key, (const void*)nullptr);
    };
    if (r.chance(0.5)) put(bad);
    else
    {
        Dictionary sub;
        sub.insert("fine", 1);
        put(sub);
        bad.insert("nested", sub);
    }
    std::string msg;
    try
    {
        auto n = la::ginkgo::parse(bad);
        H::fail("a setting of unsupported type was accepted: " + n.text(), __FILE__, __LINE__);
    }
    catch (const NeoFOAMException& e)
    {
        msg = e.what();
    }
    H_CHECK(msg.find(key) != std::string::npos, "the refusal of setting '" << key << "' does not name it: " << msg);
    H::count("unsupported settings refused");
}

// ------------------------------------------------------------------------------- systems
struct Data
{
    std::size_t n = 0;
    std::vector<scalar> v, b;
    std::vector<localIdx> rp, ci;
    std::map<std::pair<std::size_t, std::size_t>, double> a() const
    {
        std::map<std::pair<std::size_t, std::size_t>, double> m;
        for (std::size_t i = 0; i < n; ++i)
            for (auto k = rp[i]; k < rp[i + 1]; ++k) m[{i, (std::size_t)ci[k]}] = v[k];
        return m;
    }
};
std::map<std::pair<std::size_t, std::size_t>, double> transposed(const std::map<std::pair<std::size_t, std::size_t>, double>& a)
{
    std::map<std::pair<std::size_t, std::size_t>, double> t;
    for (auto& [k, v] : a) t[{k.second, k.first}] = v;
    return t;
}
// diagonally dominant; rows sorted or not; symmetric or not; stored zeros
Data randomSystem(Rng& r, std::size_t maxN)
{
    Data d;
    d.n = r.chance(0.04) ? 100 + r.below(100) : 1 + (std::size_t)r.below(maxN);
    bool sym = r.chance(0.4), shuffled = r.chance(0.5);
    double fill = d.n > 90 ? 0.03 : r.pick({0.0, 0.1, 0.3, 0.7, 1.0});
    std::vector<std::map<std::size_t, double>> rows(d.n);
    for (std::size_t i = 0; i < d.n; ++i)
        for (std::size_t j = 0; j < (sym ? i : d.n); ++j)
            if (i != j && r.chance(fill))
            {
                double v = r.chance(0.1) ? 0.0 : r.dyadic();
                rows[i][j] = v;
                if (sym) rows[j][i] = v;
            }
    for (std::size_t i = 0; i < d.n; ++i)
    {
        double s = 0;
        for (auto& [j, v] : rows[i]) s += std::fabs(v);
        for (std::size_t k = 0; k < d.n; ++k)
            if (rows[k].count(i)) s += std::fabs(rows[k][i]);
        rows[i][i] = (s + 1 + r.below(5)) * (r.chance(0.3) ? -1 : 1);
    }
    d.rp.push_back(0);
    for (std::size_t i = 0; i < d.n; ++i)
    {
        std::vector<std::pair<std::size_t, double>> row(rows[i].begin(), rows[i].end());
        if (shuffled) r.shuffle(row);
        for (auto& [j, v] : row)
        {
            d.ci.push_back((localIdx)j);
            d.v.push_back(v);
        }
        d.rp.push_back((localIdx)d.ci.size());
    }
    for (std::size_t i = 0; i < d.n; ++i) d.b.push_back(r.chance(0.1) ? 0.0 : r.dyadic());
    return d;
}
System make(const Executor& e, const Data& d)
{
    return System(la::CSRMatrix<scalar, localIdx>(field<scalar>(e, d.v), field<localIdx>(e, d.ci), field<localIdx>(e, d.rp)), field<scalar>(e, d.b));
}
void expectSame(const System& s, const Data& d, const std::string& w)
{
    expectEq(values(s.matrix().values()), d.v, w + ": coefficients");
    expectEq(values(s.matrix().colIdxs()), d.ci, w + ": columns");
    expectEq(values(s.matrix().rowPtrs()), d.rp, w + ": row pointers");
    expectEq(values(s.rhs()), d.b, w + ": right-hand side");
}
enum Kind { Ginkgo, Petsc, User };
struct Handle
{
    Kind kind;
    Setting settings; // Ginkgo
    std::string label; // User
    std::unique_ptr<la::Solver> solver;
    std::string text;
};
Handle makeSolver(Rng& r, const Executor& e)
{
    Handle h;
    h.kind = (Kind)r.below(3);
    if (h.kind == Ginkgo)
    {
        h.settings = settings(r, 2);
        std::string type = r.pick<std::string>({"solver::Cg", "solver::Gmres", "solver::Bicgstab"});
        if (r.chance(0.5)) h.settings.d.insert("type", type);
        else
        {
            type = "solver::Cg";
            h.settings.d.insert("type", "solver::Cg");
        }
        h.settings.want.emplace("type", Node(type));
        h.settings.d.insert("solver", std::string("Ginkgo"));
        h.settings.want.emplace("solver", Node("Ginkgo"));
        Dictionary given(h.settings.d);
        h.solver = std::make_unique<la::Solver>(e, given);
        given.insert("type", std::string("solver::Ir")); // the solver keeps the settings of its construction
        given.insert("later", 1);
    }
    else if (h.kind == Petsc)
    {
        Dictionary d;
        d.insert("solver", std::string("Petsc"));
        h.solver = std::make_unique<la::Solver>(e, d);
    }
    else
    {
        Dictionary d;
        h.label = "label" + std::to_string(r.below(1000));
        d.insert("solver", std::string("Spy"));
        d.insert("label", h.label);
        if (r.chance(0.5)) h.solver = std::make_unique<la::Solver>(e, d);
        else h.solver = std::make_unique<la::Solver>(e, la::SolverFactory::create(e, d));
        H_CHECK(spy.lastExec == (int)e.index(), "the solver was created on another executor");
    }
    h.text = h.kind == Ginkgo ? "Ginkgo" : h.kind == Petsc ? "PETSc" : "user's solver";
    return h;
}
void solveAndCheck(Rng& r, const Executor& e, Handle& h, const System& ls, const Data& d, const std::string& w)
{
    std::vector<scalar> start(d.n);
    for (auto& x : start) x = r.dyadic();
    auto x = field<scalar>(e, start);
    auto* address = x.data();
    gko::log().clear();
    NFM::petsc().log.clear();
    auto s0 = spy;
    const la::Solver& solver = *h.solver;
    solver.solve(ls, x);
    Kokkos::fence();
    H_CHECK(x.exec().index() == e.index() && x.size() == d.n, w << ": the solution has " << x.size() << " values on " << exName(x.exec()));
    auto got = values(x);
    H_CHECK(gko::log().size() == (h.kind == Ginkgo) && NFM::petsc().log.size() == (h.kind == Petsc) && spy.solves - s0.solves == (h.kind == User), w << ": not exactly one solve by the configured back end (" << gko::log().size() << " Ginkgo, " << NFM::petsc().log.size() << " PETSc, " << spy.solves - s0.solves << " user)");
    if (h.kind == User)
    {
        H_CHECK(spy.ls == &ls && spy.x == &x, w << ": the user's solver was given other objects");
        H_CHECK(spy.label == h.label, w << ": solved by the solver labelled '" << spy.label << "' instead of '" << h.label << "'");
        expectEq(got, start, w + ": field after a solver which does nothing");
    }
    else
    {
        auto a = d.a();
        if (h.kind == Ginkgo)
        {
            auto& ev = gko::log().back();
            H_CHECK(ev.matrix.nRows == d.n && ev.matrix.nCols == d.n, w << ": a matrix of " << ev.matrix.nRows << " x " << ev.matrix.nCols);
            H_CHECK(ev.matrix.a == a && ev.matrix.stored == d.v.size(), w << ": the matrix handed to Ginkgo is not that of the system");
            expectEq(ev.rhs, d.b, w + ": right-hand side handed to Ginkgo");
            expectEq(ev.start, start, w + ": starting point handed to Ginkgo");
            expectEq(got, ev.solution, w + ": solution stored");
            H_CHECK(ev.valueType == "float64", w << ": value type " << ev.valueType);
            auto want = h.settings.want;
            if (ev.settings.get_tag() == Node::tag_t::map && !ev.settings.get("solver")) want.erase("solver");
            expectNode(ev.settings, Node(want), w);
        }
        else
        {
            auto& ev = NFM::petsc().log.back();
            bool same = ev.matrix.a == a;
            if (!same && ev.matrix.a == transposed(a))
            {
                H::count("systems handed to PETSc transposed (known finding)");
                if (!H::knownFinding("KF-L03-petsc-transposed")) H::fail(w + ": the matrix handed to PETSc is the transpose of the system's", __FILE__, __LINE__);
            }
            else H_CHECK(same, w << ": the matrix handed to PETSc is not that of the system");
            H_CHECK(ev.matrix.nRows == d.n && ev.matrix.nCols == d.n && ev.matrix.stored == d.v.size(), w << ": a matrix of " << ev.matrix.nRows << " x " << ev.matrix.nCols << ", " << ev.matrix.stored << " entries");
            expectEq(ev.rhs, d.b, w + ": right-hand side handed to PETSc");
            expectEq(got, ev.solution, w + ": solution stored");
        }
        (void)address;
    }
    expectSame(ls, d, w + ": system after the solve");
    H::count((std::string("solves by ") + h.text + " on " + exName(e)).c_str());
    H::count("unknowns solved for", d.n);
}
void history(Rng& r, H::Ctx& c)
{
    auto e = anyExec(r);
    std::size_t maxN = c.thorough ? r.pick({3, 12, 40, 90}) : r.pick({2, 6, 14});
    std::vector<Handle> hs;
    std::vector<std::pair<System, Data>> systems;
    auto c0 = spy;
    int steps = c.thorough ? 24 : 10;
    for (int i = 0; i < steps; ++i)
    {
        auto op = r.below(10);
        std::string w = "step " + std::to_string(i) + " on " + exName(e);
        if (hs.empty() || (op == 0 && hs.size() < 5))
        {
            hs.push_back(makeSolver(r, e));
            H::sig(hs.back().text);
        }
        else if (op == 1 && hs.size() < 6)
        {
            // a copy works by itself, whatever becomes of the original
            auto k = r.below(hs.size());
            Handle n {hs[k].kind, hs[k].settings, hs[k].label, nullptr, hs[k].text};
            bool moved = r.chance(0.3);
            int before = spy.created - spy.destroyed;
            if (moved) n.solver = std::make_unique<la::Solver>(std::move(*hs[k].solver));
            else n.solver = std::make_unique<la::Solver>(std::as_const(*hs[k].solver));
            int after = spy.created - spy.destroyed;
            H_CHECK(after - before == (n.kind == User && !moved), "a " << (moved ? "moved" : "copied") << " solver holds " << after - before << " new instances");
            if (moved || r.chance(0.3)) hs.erase(hs.begin() + (long)k);
            hs.push_back(std::move(n));
            H::count(moved ? "solvers moved" : "solvers copied");
            H::sig(moved ? "move" : "copy");
        }
        else if (op == 2 && hs.size() > 1) hs.erase(hs.begin() + (long)r.below(hs.size()));
        else
        {
            if (systems.empty() || r.chance(0.6))
            {
                auto d = randomSystem(r, maxN);
                systems.emplace_back(make(e, d), d);
                if (systems.size() > 4) systems.erase(systems.begin());
            }
            else if (r.chance(0.5))
            {
                // the same system object with other coefficients
                auto& [s, d] = systems[r.below(systems.size())];
                double f = r.pick({2.0, -0.5, 4.0});
                for (auto& v : d.v) v *= f;
                for (auto& b : d.b) b += 0.25;
                poke(s.matrix().values(), d.v);
                poke(s.rhs(), d.b);
            }
            auto& [s, d] = systems[r.below(systems.size())];
            auto& h = hs[r.below(hs.size())];
            H::sig(str(d.rp) + str(d.ci) + h.text + exName(e));
            solveAndCheck(r, e, h, s, d, w + ", " + h.text + ", " + std::to_string(d.n) + " unknowns");
            for (auto& [s2, d2] : systems) expectSame(s2, d2, w + ": other systems");
        }
    }
    hs.clear();
    H_CHECK(spy.created - c0.created == spy.destroyed - c0.destroyed, "solver instances were not released");
    H_CHECK(NFM::petsc().live.empty(), NFM::petsc().live.size() << " PETSc objects were not destroyed");
}
void refused(Rng& r)
{
    auto e = anyExec(r);
    Dictionary none;
    none.insert("type", std::string("solver::Cg"));
    try
    {
        la::Solver s(e, none);
        H::fail("a solver was created without the entry 'solver'", __FILE__, __LINE__);
    }
    catch (const std::exception&)
    {
    }
    auto res = H::inChild([&] {
        Dictionary d;
        d.insert("solver", std::string("NoSuchSolver"));
        la::Solver s(e, d);
    });
    H_CHECK(!(res.exited && res.code == 0) && res.err.find("NoSuchSolver") != std::string::npos, "an unknown solver was created: " << res.err);
    for (auto known : {"Ginkgo", "Petsc", "Spy"})
        H_CHECK(res.err.find(known) != std::string::npos, "the error for an unknown solver does not name " << known << ": " << res.err);
    // what the back end refuses reaches the caller
    Dictionary d;
    d.insert("solver", std::string("Ginkgo"));
    if (r.chance(0.5)) d.insert("type", std::string("nothing known"));
    bool thrown = false;
    try
    {
        la::Solver s(e, d);
    }
    catch (const gko::Error&)
    {
        thrown = true;
    }
    H_CHECK(thrown, "settings the back end refuses were accepted");
    H::count("unusable settings refused");
}
void large()
{
    // as many entries as a mesh of realistic size has
    auto e = serial();
    std::size_t n = 1500000;
    System s(la::CSRMatrix<scalar, localIdx>(Field<scalar>(e, n, 2.0), Field<localIdx>(e, n), Field<localIdx>(e, n + 1)), Field<scalar>(e, n, 3.0));
    auto* c = s.matrix().colIdxs().data();
    auto* p = s.matrix().rowPtrs().data();
    for (std::size_t i = 0; i < n; ++i) c[i] = p[i] = (localIdx)i;
    p[n] = (localIdx)n;
    Field<scalar> x(e, n, 0.0);
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    la::Solver(e, d).solve(s, x);
    std::size_t wrong = 0;
    for (std::size_t i = 0; i < n; ++i) wrong += x.data()[i] != 1.5;
    H_CHECK(wrong == 0, wrong << " of " << n << " unknowns differ from the solution");
    H::count("unknowns solved for", n);
    NFM::petsc().log.clear();
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    {
        if (c.index == 0) large();
        for (int i = 0; i < 4; ++i) parsing(r);
        history(r, c);
        if (r.chance(0.1)) refused(r);
    }
    gko::log().clear();
    NFM::petsc().log.clear();
}
