// P02: a duplex exchange delivers to every rank exactly what each other rank sent it.
#include "mpi.hpp"
using namespace MP;
using mpi::FullDuplexCommBuffer;
using mpi::bufferHash;
void harnessInit() {}
void harnessCaseEnd() { caseStats(); }

namespace
{
using Sizes = std::vector<std::vector<std::size_t>>; // [from][to]
Sizes sizes(Rng& r, int N, bool thorough)
{
    Sizes s((std::size_t)N, std::vector<std::size_t>((std::size_t)N));
    int kind = (int)r.below(6);
    std::size_t whole = rndSize(r, thorough);
    for (std::size_t i = 0; i < s.size(); ++i)
        for (std::size_t j = 0; j < s.size(); ++j)
            switch (kind)
            {
            case 0: s[i][j] = whole; break;                                            // everybody to everybody
            case 1: s[i][j] = (i + 1) % s.size() == j ? rndSize(r, thorough) : 0; break; // ring
            case 2: s[i][j] = i == 0 ? rndSize(r, thorough) : 0; break;                // one sender
            case 3: s[i][j] = j == 0 ? rndSize(r, thorough) : 0; break;                // one receiver
            case 4: s[i][j] = i == j ? 0 : rndSize(r, thorough); break;                // nothing to itself
            default: s[i][j] = rndSize(r, thorough);
            }
    return s;
}
std::vector<std::size_t> row(const Sizes& s, std::size_t i) { return s[i]; }
std::vector<std::size_t> col(const Sizes& s, std::size_t j)
{
    std::vector<std::size_t> v;
    for (auto& x : s) v.push_back(x[j]);
    return v;
}
uint64_t key(uint64_t msg, std::size_t from, std::size_t to, std::size_t i) { return ((msg * 11 + from) * 11 + to) * 100003 + i; }
template<typename T>
void fillSend(FullDuplexCommBuffer& b, const Sizes& s, std::size_t me, uint64_t msg)
{
    for (std::size_t k = 0; k < s.size(); ++k)
    {
        auto v = b.getSend<T>(k);
        H_CHECK(v.size() == s[me][k], "send slice of rank " << me << " for rank " << k << " has " << v.size() << " values instead of " << s[me][k]);
        H_CHECK(b.getReceive<T>(k).size() == s[k][me], "receive slice of rank " << me << " from rank " << k << " has " << b.getReceive<T>(k).size() << " values instead of " << s[k][me]);
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = stamp<T>(key(msg, me, k, i));
    }
}
template<typename T>
void expectReceived(FullDuplexCommBuffer& b, const Sizes& s, std::size_t me, uint64_t msg, const std::string& w)
{
    const auto& cb = b;
    for (std::size_t k = 0; k < s.size(); ++k)
    {
        auto v = cb.getReceive<T>(k);
        auto o = cb.getSend<T>(k);
        H_CHECK(v.size() == s[k][me] && o.size() == s[me][k], w << ": slice sizes");
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            T want = stamp<T>(key(msg, k, me, i));
            H_CHECK(sameBytes(v[i], want), w << ": rank " << me << " received something else from rank " << k << " at index " << i << " of " << v.size());
        }
        for (std::size_t i = 0; i < o.size(); ++i)
        {
            T want = stamp<T>(key(msg, me, k, i));
            H_CHECK(sameBytes(o[i], want), w << ": the send slice of rank " << me << " for rank " << k << " changed");
        }
        H::count("values received and compared", v.size());
    }
}
// several exchanges (with names of distinct tags) under way at once, ranks at different stages, driven from one thread
struct Exchange
{
    std::string name;
    Sizes s;
    int type;
    uint64_t msg;
    std::vector<std::unique_ptr<FullDuplexCommBuffer>> b; // per rank
    std::vector<int> stage;                               // 0 idle, 1 initialised, 2 filled, 3 started, 4 complete, 5 finalised
    std::vector<int> round;
};
uint64_t roundMsg(const Exchange& x, std::size_t me) { return x.msg * 64 + (uint64_t)x.round[me]; }
int roundType(const Exchange& x, std::size_t me) { return (x.type + x.round[me] * 3) % nTypes; }
} // namespace
void interleaved(H::Ctx& c, Rng& r, int N)
{
    std::vector<Exchange> xs(1 + r.below(3));
    std::set<int> tags;
    int rounds = c.thorough ? 1 + (int)r.below(6) : 1 + (int)r.below(3);
    uint64_t id = 1;
    for (auto& x : xs)
    {
        do x.name = r.word(9) + ":" + std::to_string(r.below(1000));
        while (!tags.insert(bufferHash(x.name)).second);
        x.s = sizes(r, N, c.thorough);
        x.type = (int)r.below(nTypes);
        x.msg = id++;
        x.stage.assign((std::size_t)N, 0);
        x.round.assign((std::size_t)N, 0);
        for (int k = 0; k < N; ++k)
        {
            NFMPI::setRank(k);
            x.b.push_back(std::make_unique<FullDuplexCommBuffer>(MPIEnvironment(), row(x.s, (std::size_t)k), col(x.s, (std::size_t)k)));
        }
        H::sig(x.name + std::to_string(x.type) + std::to_string(N));
    }
    // who may progress next is drawn at random
    std::size_t total = xs.size() * (std::size_t)N, done = 0;
    int bias = (int)r.below((std::size_t)N);
    for (std::size_t spin = 0; done < total; ++spin)
    {
        H_CHECK(spin < 4000000, "exchanges never complete");
        auto& x = xs[r.below(xs.size())];
        auto me = r.chance(0.5) ? (std::size_t)bias : r.below((std::size_t)N);
        if (r.chance(0.05)) bias = (int)r.below((std::size_t)N);
        if (x.round[me] >= rounds) continue;
        NFMPI::setRank((int)me);
        auto& b = *x.b[me];
        std::string w = "exchange '" + x.name + "', round " + std::to_string(x.round[me]) + ", rank " + std::to_string(me) + " of " + std::to_string(N);
        withType(roundType(x, me), [&](auto tv) {
            using T = decltype(tv);
            switch (x.stage[me])
            {
            case 0:
                H_CHECK(!b.isCommInit(), w << ": initialised before initComm");
                b.template initComm<T>(x.name);
                H_CHECK(b.isCommInit(), w << ": not initialised after initComm");
                x.stage[me] = 1;
                break;
            case 1:
                fillSend<T>(b, x.s, me, roundMsg(x, me));
                x.stage[me] = 2;
                break;
            case 2:
                b.startComm();
                H::count("exchanges started");
                x.stage[me] = 3;
                break;
            case 3:
            {
                // everything sent to this rank in this round has been posted?
                bool posted = true, all = true;
                for (std::size_t k = 0; k < (std::size_t)N; ++k)
                {
                    bool ahead = x.round[k] > x.round[me] || (x.round[k] == x.round[me] && x.stage[k] >= 3);
                    if (x.s[k][me] && !ahead) posted = false;
                    if ((x.s[k][me] || x.s[me][k]) && !ahead) all = false;
                }
                bool complete;
                if (all && r.chance(0.2))
                {
                    b.waitComplete();
                    complete = true;
                    H::count("blocking waits");
                }
                else complete = b.isComplete();
                H_CHECK(!complete || posted, w << ": reported complete although some messages have not been sent");
                H::count(complete ? "polls reporting completion" : "polls reporting messages under way");
                if (complete)
                {
                    expectReceived<T>(b, x.s, me, roundMsg(x, me), w);
                    x.stage[me] = 4;
                }
                break;
            }
            default:
                H_CHECK(b.isComplete(), w << ": no longer complete");
                expectReceived<T>(b, x.s, me, roundMsg(x, me), w + " before finalising");
                b.finaliseComm();
                H_CHECK(!b.isCommInit(), w << ": initialised after finaliseComm");
                H::count("exchanges completed");
                H::seen("type orders", (uint64_t)roundType(x, me) * 8 + (uint64_t)x.round[me]);
                x.stage[me] = 0;
                if (++x.round[me] == rounds) ++done;
            }
        });
    }
    H_CHECK(NFMPI::open() == 0 && NFMPI::unmatched() == 0, NFMPI::open() << " requests are still open, " << NFMPI::unmatched() << " messages unmatched");
}
// every rank on its own thread, blocking waits; several buffers, changing sizes by replacing the buffers
void threaded(H::Ctx& c, Rng& r, int N)
{
    int rounds = c.thorough ? 8 : 3;
    std::vector<Sizes> ss;
    std::vector<int> types;
    std::vector<bool> fresh, wait;
    for (int k = 0; k < rounds; ++k)
    {
        fresh.push_back(k == 0 || r.chance(0.5));
        ss.push_back(fresh.back() ? sizes(r, N, c.thorough) : ss.back());
        types.push_back((int)r.below(nTypes));
        wait.push_back(r.chance(0.5));
    }
    uint64_t s0 = r.next();
    H::sig("threads " + std::to_string(N) + " " + std::to_string(types[0]) + " " + std::to_string(ss[0][0][0]));
    NFMPI::threads(N, [&](int rank) {
        auto me = (std::size_t)rank;
        H::Rng lr(s0 + me);
        MPIEnvironment env;
        std::unique_ptr<FullDuplexCommBuffer> b;
        for (int k = 0; k < rounds; ++k)
        {
            if (fresh[(std::size_t)k]) b = std::make_unique<FullDuplexCommBuffer>(env, row(ss[(std::size_t)k], me), col(ss[(std::size_t)k], me));
            withType(types[(std::size_t)k], [&](auto tv) {
                using T = decltype(tv);
                b->template initComm<T>("round" + std::to_string(k % 2));
                fillSend<T>(*b, ss[(std::size_t)k], me, (uint64_t)k + 1);
                for (auto q = lr.below(20); q--;) std::this_thread::yield();
                b->startComm();
                if (wait[(std::size_t)k] || lr.chance(0.5)) b->waitComplete();
                else
                    while (!b->isComplete()) {}
                expectReceived<T>(*b, ss[(std::size_t)k], me, (uint64_t)k + 1, "threads, round " + std::to_string(k));
                b->finaliseComm();
            });
        }
    });
    H::count("exchanges completed by ranks on threads of their own", (uint64_t)(N * rounds));
    H_CHECK(NFMPI::open() == 0 && NFMPI::unmatched() == 0, NFMPI::open() << " requests are still open, " << NFMPI::unmatched() << " messages unmatched");
}
// two exchanges whose names share a tag, started in a different order on the two ends
void collidingNames(Rng& r)
{
    static const auto pair = [] {
        std::map<int, std::string> seen;
        for (int i = 0;; ++i)
        {
            auto n = "exchange" + std::to_string(i);
            auto [it, fresh] = seen.insert({bufferHash(n), n});
            if (!fresh) return std::pair<std::string, std::string>(it->second, n);
        }
    }();
    NFMPI::world(2, r.next(), 0);
    Sizes s = {{0, 3}, {3, 0}};
    std::vector<std::unique_ptr<FullDuplexCommBuffer>> b;
    for (int k = 0; k < 2; ++k)
        for (int x = 0; x < 2; ++x)
        {
            NFMPI::setRank(k);
            b.push_back(std::make_unique<FullDuplexCommBuffer>(MPIEnvironment(), row(s, (std::size_t)k), col(s, (std::size_t)k)));
        }
    for (int q = 0; q < 4; ++q)
    {
        int k = q / 2, x = k == 0 ? q % 2 : 1 - q % 2; // rank 0 starts x=0 first, rank 1 starts x=1 first
        NFMPI::setRank(k);
        auto& e = *b[(std::size_t)(2 * k + x)];
        e.initComm<int>(x ? pair.second : pair.first);
        for (std::size_t i = 0; i < 3; ++i) e.getSend<int>((std::size_t)(1 - k))[i] = 1000 * x + 10 * k + (int)i;
        e.startComm();
    }
    bool mixed = false;
    for (int q = 0; q < 4; ++q)
    {
        int k = q / 2, x = q % 2;
        NFMPI::setRank(k);
        auto& e = *b[(std::size_t)(2 * k + x)];
        for (int t = 0; !e.isComplete(); ++t)
        {
            NFMPI::setRank(1 - k);
            for (int y = 0; y < 2; ++y) (void)b[(std::size_t)(2 * (1 - k) + y)]->isComplete();
            NFMPI::setRank(k);
            H_CHECK(t < 1000, "exchange never completes");
        }
        for (std::size_t i = 0; i < 3; ++i) mixed |= e.getReceive<int>((std::size_t)(1 - k))[i] != 1000 * x + 10 * (1 - k) + (int)i;
        e.finaliseComm();
    }
    H::checked();
    if (mixed && !H::knownFinding("KF-P02-tag-collision"))
        H::fail("exchanges '" + pair.first + "' and '" + pair.second + "', started in a different order on two ranks, received each other's data (both names have tag " + std::to_string(bufferHash(pair.first)) + ")", __FILE__, __LINE__);
    H::count("pairs of exchanges whose names share a tag");
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    if (c.index % 97 == 5) return collidingNames(r);
    int N = 1 + (int)r.below(c.thorough ? 8 : 6);
    NFMPI::world(N, r.next(), r.pick({0, 1, 5, 20}));
    if (r.chance(0.6)) interleaved(c, r, N);
    else threaded(c, r, N);
}
