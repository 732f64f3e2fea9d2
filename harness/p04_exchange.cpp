// P04: field exchange between ranks updates exactly the mapped entries, with exactly the mapped values.
#include "nfk.hpp"
#include "mpi.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
using namespace FV;
using MP::stamp;
using MP::debugBuild;
void harnessInit() { FV::init(); }
void harnessCaseEnd()
{
    FV::caseEnd();
    MP::caseStats();
}
namespace
{
CommMap toMap(const std::vector<std::vector<std::size_t>>& m)
{
    CommMap c(m.size());
    for (std::size_t i = 0; i < m.size(); ++i)
        for (auto x : m[i]) c[i].push_back(NodeCommMap {.local_idx = static_cast<label>(x)});
    return c;
}
// one field, exchanged under one name, on every rank
template<typename T>
struct Ex
{
    std::string name;
    std::vector<Field<T>> f;          // per rank
    std::vector<std::vector<T>> now;  // expected contents per rank
    std::vector<std::vector<T>> sent; // contents when the exchange was started
    std::vector<int> stage, round;    // 0 idle, 1 started, 2 complete
};
template<typename T>
void exchange(H::Ctx& c, int N)
{
    auto& r = c.rng;
    std::size_t n = (std::size_t)N;
    // maps: disjoint receive positions, arbitrary send positions
    std::vector<std::size_t> size(n);
    std::vector<std::vector<std::vector<std::size_t>>> sm(n, std::vector<std::vector<std::size_t>>(n)), rm = sm;
    const bool large = r.chance(0.04); // long messages
    for (auto& s : size) s = 1 + r.below(large ? 3000 : 12);
    std::vector<std::vector<std::size_t>> freePos(n);
    for (std::size_t k = 0; k < n; ++k)
    {
        for (std::size_t i = 0; i < size[k]; ++i) freePos[k].push_back(i);
        r.shuffle(freePos[k]);
    }
    for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b)
        {
            auto m = r.chance(0.3) ? 0 : r.below(large ? 800 : 4);
            for (std::size_t q = 0; q < m && !freePos[b].empty(); ++q)
            {
                sm[a][b].push_back(r.below(size[a]));
                rm[b][a].push_back(freePos[b].back());
                freePos[b].pop_back();
            }
        }
    std::vector<std::unique_ptr<Communicator>> comm;
    for (int k = 0; k < N; ++k)
    {
        NFMPI::setRank(k);
        comm.push_back(std::make_unique<Communicator>());
        *comm.back() = Communicator(mpi::MPIEnvironment(), toMap(sm[(std::size_t)k]), toMap(rm[(std::size_t)k]));
    }
    std::size_t nEx = 1 + r.below(r.chance(0.12) ? 12 : c.thorough ? 6 : 4);
    // names may differ in their last letters only
    const std::string stem = r.chance(0.3) ? r.word(8) + std::string(r.below(40), 'x') : "";
    int rounds = 1 + (int)r.below(3);
    std::vector<Ex<T>> xs(nEx);
    std::set<int> tags;
    uint64_t fresh = 1;
    for (auto& x : xs)
    {
        do x.name = stem + r.word(8) + std::to_string(r.below(1000));
        while (!tags.insert(mpi::bufferHash(x.name)).second);
        for (std::size_t k = 0; k < n; ++k)
        {
            std::vector<T> v(size[k]);
            for (auto& y : v) y = stamp<T>(fresh++);
            x.f.push_back(field<T>(anyExec(r), v));
            x.now.push_back(v);
        }
        x.sent.resize(n);
        x.stage.assign(n, 0);
        x.round.assign(n, 0);
        H::sig(x.name);
    }
    auto history = std::vector<std::vector<std::vector<std::vector<T>>>>(nEx, std::vector<std::vector<std::vector<T>>>((std::size_t)rounds, std::vector<std::vector<T>>(n)));
    std::size_t done = 0, inFlight = 0, most = 0;
    for (std::size_t spin = 0; done < nEx * n; ++spin)
    {
        H_CHECK(spin < 2000000, "field exchanges never complete");
        auto xi = r.below(nEx);
        auto& x = xs[xi];
        auto me = r.below(n);
        if (x.round[me] >= rounds) continue;
        NFMPI::setRank((int)me);
        auto& cm = *comm[me];
        std::string w = "exchange '" + x.name + "', round " + std::to_string(x.round[me]) + ", rank " + std::to_string(me) + " of " + std::to_string(N) + ", field on " + exName(x.f[me].exec());
        auto e0 = x.f[me].exec().index();
        if (x.stage[me] == 0)
        {
            if (r.chance(0.5))
            { // new values
                for (auto& y : x.now[me]) y = stamp<T>(fresh++);
                poke(x.f[me], x.now[me]);
            }
            history[xi][(std::size_t)x.round[me]][me] = x.now[me];
            cm.startComm(x.f[me], x.name);
            x.stage[me] = 1;
            most = std::max(most, ++inFlight);
            expectEq(values(x.f[me]), x.now[me], w + ": field after the start");
            H::count("field exchanges started");
            if (debugBuild && r.chance(0.1))
            {
                auto res = H::inChild([&] { cm.startComm(x.f[me], x.name); });
                H_CHECK(res.refused(), w << ": a second exchange under the same name was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
                res = H::inChild([&] { cm.finaliseComm(x.f[me], "unknown name"); });
                H_CHECK(res.refused(), w << ": finalising an unknown exchange was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
                res = H::inChild([&] { (void)cm.isComplete("unknown name"); });
                H_CHECK(res.refused(), w << ": polling an unknown exchange was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
                H::count("misuses refused (debug build, in a child)", 3);
            }
            if (r.chance(0.3))
            { // the field may be changed while its old values travel
                auto i = r.below(size[me]);
                x.now[me][i] = stamp<T>(fresh++);
                poke(x.f[me], x.now[me]);
            }
            continue;
        }
        bool posted = true, all = true;
        for (std::size_t k = 0; k < n; ++k)
        {
            bool ahead = x.round[k] > x.round[me] || (x.round[k] == x.round[me] && x.stage[k] >= 1);
            if (!sm[k][me].empty() && !ahead) posted = false;
            if ((!sm[k][me].empty() || !sm[me][k].empty()) && !ahead) all = false;
        }
        bool finish = false;
        if (r.chance(0.7))
        {
            finish = cm.isComplete(x.name);
            H_CHECK(!finish || posted, w << ": reported complete although values have not been sent");
            H::count(finish ? "polls reporting completion" : "polls reporting messages under way");
            if (finish && r.chance(0.5)) continue; // later
            expectEq(values(x.f[me]), x.now[me], w + ": field before finalising");
        }
        else finish = all; // wait inside
        if (!finish) continue;
        cm.finaliseComm(x.f[me], x.name);
        --inFlight;
        for (std::size_t k = 0; k < n; ++k)
            for (std::size_t q = 0; q < rm[me][k].size(); ++q) x.now[me][rm[me][k][q]] = history[xi][(std::size_t)x.round[me]][k][sm[k][me][q]];
        expectEq(values(x.f[me]), x.now[me], w + ": field after finalising");
        H_CHECK(x.f[me].exec().index() == e0, w << ": field changed executor");
        H::count("field exchanges completed");
        H::count("values received", [&] { std::size_t s = 0; for (auto& v : rm[me]) s += v.size(); return s; }());
        x.stage[me] = 0;
        if (debugBuild && r.chance(0.1))
        {
            auto res = H::inChild([&] { (void)cm.isComplete(x.name); });
            H_CHECK(res.refused(), w << ": polling a finalised exchange was not rejected (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
            res = H::inChild([&] { cm.finaliseComm(x.f[me], x.name); });
            H_CHECK(res.refused(), w << ": finalising an exchange twice was not rejected (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
            H::count("misuses refused (debug build, in a child)", 2);
        }
        if (++x.round[me] == rounds) ++done;
    }
    H::maxi("most exchanges under way at once", (double)most);
    H_CHECK(NFMPI::open() == 0 && NFMPI::unmatched() == 0, NFMPI::open() << " requests are still open, " << NFMPI::unmatched() << " messages unmatched");
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    int N = 1 + (int)r.below(5);
    NFMPI::world(N, r.next(), r.pick({0, 1, 5}));
    switch (r.below(4))
    {
    case 0: exchange<scalar>(c, N); break;
    case 1: exchange<int>(c, N); break;
    case 2: exchange<Vector>(c, N); break;
    default: exchange<label>(c, N); break;
    }
}
