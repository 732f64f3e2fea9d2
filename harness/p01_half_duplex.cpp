// P01: a half-duplex buffer never loses, mixes or exposes data of another message.
#include "mpi.hpp"
using namespace MP;
using mpi::HalfDuplexCommBuffer;
void harnessInit() {}
void harnessCaseEnd() { caseStats(); }

namespace
{
// what the buffer must look like
struct Model
{
    std::vector<std::size_t> n; // values per rank
    bool init = false, active = false, sending = false;
    int type = 0;
    std::size_t typeSize = 1;
    std::string name;
    std::vector<std::vector<char>> data; // per rank, while initialised
};
template<typename T>
void check(HalfDuplexCommBuffer& b, const Model& m, const std::string& w, bool contents = true)
{
    std::vector<std::pair<const char*, const char*>> ranges;
    const auto& cb = b;
    for (std::size_t k = 0; k < m.n.size(); ++k)
    {
        auto s = b.get<T>(k);
        auto cs = cb.get<T>(k);
        H_CHECK(s.size() == m.n[k] && cs.size() == m.n[k], w << ": slice of rank " << k << " has " << s.size() << " (" << cs.size() << ") values instead of " << m.n[k]);
        if (!m.n[k]) continue;
        H_CHECK((const T*)s.data() == cs.data(), w << ": constant access returns another slice for rank " << k);
        auto lo = (const char*)s.data(), hi = lo + s.size() * sizeof(T);
        H_CHECK((std::uintptr_t)lo % alignof(T) == 0, w << ": slice of rank " << k << " is misaligned");
        for (auto& o : ranges) H_CHECK(hi <= o.first || lo >= o.second, w << ": slice of rank " << k << " overlaps that of another rank");
        ranges.push_back({lo, hi});
        if (contents) H_CHECK(std::memcmp(lo, m.data[k].data(), m.data[k].size()) == 0, w << ": data of rank " << k << " changed");
    }
    H::count("slices compared", m.n.size());
}
template<typename F>
void refused(const std::string& w, F&& f)
{
    if (!debugBuild) return;
    auto res = H::inChild([&] { f(); });
    H_CHECK(res.refused(), w << " was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
    H_CHECK(!res.err.empty(), w << " ended the program without a message");
    H::count("uses out of order refused (debug build, in a child)");
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    int N = 1 + (int)r.below(6), me = (int)r.below((std::size_t)N);
    NFMPI::world(N, r.next(), r.pick({0, 2, 6}));
    NFMPI::setRank(me);
    MPIEnvironment env;
    auto sizes = [&] {
        std::vector<std::size_t> v((std::size_t)N);
        for (auto& x : v) x = rndSize(r, c.thorough);
        return v;
    };
    Model m;
    m.n = sizes();
    auto buf = std::make_unique<HalfDuplexCommBuffer>(env, m.n);
    if (r.chance(0.2))
    {
        buf = std::make_unique<HalfDuplexCommBuffer>();
        buf->setMPIEnvironment(env);
        withType((int)r.below(nTypes), [&](auto t) {
            buf->setCommRankSize<decltype(t)>(m.n);
        });
    }
    H::sig("world " + std::to_string(N) + " " + std::to_string(me));
    uint64_t message = 0;
    std::vector<std::string> names = {"a", "b", "file.cpp:12", "", "a very long communication name with spaces", "c"};
    int steps = c.thorough ? 60 : 18;
    for (int s = 0; s < steps; ++s)
    {
        auto& b = *buf;
        H_CHECK(!b.isCommInit() && b.getCommName() == "unassigned", "idle buffer reports name '" << b.getCommName() << "', initialised: " << b.isCommInit());
        // ----------------------------------------------------------- idle: resize, refuse, copy
        if (r.chance(0.4))
        {
            m.n = sizes();
            withType((int)r.below(nTypes), [&](auto t) { b.setCommRankSize<decltype(t)>(m.n); });
            H::sig("resize");
            H::count("buffers resized");
        }
        if (r.chance(0.02)) refused("get() on an idle buffer", [&] { (void)b.get<char>(0); });
        if (r.chance(0.02)) refused("send() on an idle buffer", [&] { b.send(); });
        if (r.chance(0.02)) refused("receive() on an idle buffer", [&] { b.receive(); });
        if (r.chance(0.02)) refused("finaliseComm() on an idle buffer", [&] { b.finaliseComm(); });
        if (r.chance(0.02)) refused("waitComplete() on an idle buffer", [&] { b.waitComplete(); });
        if (r.chance(0.02)) refused("isComplete() on an idle buffer", [&] { (void)b.isComplete(); });
        if (r.chance(0.02)) refused("a size list for another number of ranks", [&] { b.setCommRankSize<char>(std::vector<std::size_t>((std::size_t)N + 1, 1)); });
        if (r.chance(0.1))
        { // an idle buffer copies as a value
            auto copy = std::make_unique<HalfDuplexCommBuffer>(b);
            buf = std::move(copy);
            continue;
        }
        // ----------------------------------------------------------- one message
        ++message;
        m.name = r.pick(names) + (r.chance(0.5) ? std::to_string(message) : "");
        withType((int)r.below(nTypes), [&](auto tv) {
            using T = decltype(tv);
            std::string w = "message '" + m.name + "' of " + std::to_string(sizeof(T)) + "-byte values, rank " + std::to_string(me) + " of " + std::to_string(N);
            b.template initComm<T>(m.name);
            H_CHECK(b.isCommInit(), w << ": isCommInit() is false after initComm");
            H_CHECK(b.getCommName() == m.name, w << ": getCommName() is '" << b.getCommName() << "'");
            m.data.assign((std::size_t)N, {});
            m.typeSize = sizeof(T);
            check<T>(b, m, w + " after initComm", false);
            // fill the slices in random order, twice some of them
            std::vector<std::size_t> order;
            for (std::size_t k = 0; k < (std::size_t)N; ++k) order.push_back(k);
            r.shuffle(order);
            if (r.chance(0.3)) order.push_back(r.below((std::size_t)N));
            for (auto k : order) m.data[k].assign(m.n[k] * sizeof(T), 0);
            std::vector<bool> filled((std::size_t)N, false);
            for (std::size_t q = 0; q < order.size(); ++q)
            {
                auto k = order[q];
                auto sl = b.template get<T>(k);
                for (std::size_t i = 0; i < sl.size(); ++i)
                {
                    sl[i] = stamp<T>(message * 1000003 + k * 5003 + i + q * 17);
                    std::memcpy(m.data[k].data() + i * sizeof(T), &sl[i], sizeof(T));
                }
                filled[k] = true;
            }
            check<T>(b, m, w + " after filling");
            if (r.chance(0.04)) refused(w + ": initComm() on a busy buffer", [&] { b.template initComm<T>("other"); });
            if (r.chance(0.04)) refused(w + ": setCommRankSize() on a busy buffer", [&] { b.template setCommRankSize<T>(m.n); });
            if (r.chance(0.04)) refused(w + ": access with values of another size", [&] {
                if constexpr (sizeof(T) == 1) (void)b.template get<int>(0);
                else (void)b.template get<char>(0);
            });
            std::size_t total = 0;
            for (auto x : m.n) total += x;
            bool sending = r.chance(0.5);
            if (r.chance(0.08))
            { // given up before it started
                b.finaliseComm();
                H::sig("dropped");
                return;
            }
            H::sig((sending ? "send " : "receive ") + std::to_string(sizeof(T)) + " " + std::to_string(total));
            int tag = mpi::bufferHash(m.name);
            H_CHECK(tag >= 10 && tag <= 32767, w << ": tag " << tag);
            std::vector<std::vector<char>> peer((std::size_t)N);
            std::vector<MPI_Request> preq((std::size_t)N, MPI_REQUEST_NULL);
            // the other ends of the messages
            auto peerPost = [&](std::size_t k) {
                NFMPI::setRank((int)k);
                auto bytes = m.n[k] * sizeof(T);
                if (sending)
                {
                    peer[k].assign(bytes, 0);
                    if (bytes) MPI_Irecv(peer[k].data(), (int)bytes, MPI_CHAR, me, tag, MPI_COMM_WORLD, &preq[k]);
                }
                else
                {
                    peer[k].resize(bytes);
                    for (std::size_t i = 0; i < m.n[k]; ++i)
                    {
                        T v = stamp<T>(message * 777767 + k * 901 + i);
                        std::memcpy(peer[k].data() + i * sizeof(T), &v, sizeof(T));
                    }
                    if (bytes) MPI_Isend(peer[k].data(), (int)bytes, MPI_CHAR, me, tag, MPI_COMM_WORLD, &preq[k]);
                }
                NFMPI::setRank(me);
            };
            r.shuffle(order);
            std::set<std::size_t> todo;
            for (std::size_t k = 0; k < (std::size_t)N; ++k) todo.insert(k);
            while (!todo.empty() && r.chance(0.4)) // some ranks are ahead of us
            {
                auto it = std::next(todo.begin(), (long)r.below(todo.size()));
                peerPost(*it);
                todo.erase(it);
            }
            if (sending) b.send();
            else b.receive();
            H::count(sending ? "sends started" : "receives started");
            if (sending) check<T>(b, m, w + " after send()");
            bool complete = false;
            auto peerTest = [&] {
                for (std::size_t k = 0; k < (std::size_t)N; ++k)
                {
                    int f;
                    NFMPI::setRank((int)k);
                    MPI_Test(&preq[k], &f, MPI_STATUS_IGNORE);
                }
                NFMPI::setRank(me);
            };
            bool firstPoll = true;
            for (int spin = 0; !complete; ++spin)
            {
                H_CHECK(spin < 100000, w << " never completes");
                if (!todo.empty() && r.chance(0.5))
                {
                    auto it = std::next(todo.begin(), (long)r.below(todo.size()));
                    peerPost(*it);
                    todo.erase(it);
                }
                if (r.chance(0.5)) peerTest();
                bool outstanding = false;
                for (auto k : todo) outstanding |= m.n[k] > 0;
                if (!outstanding && r.chance(0.2))
                {
                    b.waitComplete();
                    H::count("blocking waits");
                    complete = true;
                    break;
                }
                complete = b.isComplete();
                if (!sending) H_CHECK(!(complete && outstanding), w << ": reported complete although messages have not been sent yet");
                if (!complete && debugBuild && firstPoll && r.chance(0.05))
                {
                    // nothing else may be done while messages are certainly under way
                    if (outstanding && !sending) refused(w + ": finaliseComm() while active", [&] { b.finaliseComm(); });
                    if (outstanding && !sending) refused(w + ": receive() while active", [&] { b.receive(); });
                }
                firstPoll = false;
                H::count(complete ? "polls reporting completion" : "polls reporting messages under way");
                if (sending) check<T>(b, m, w + " while sending");
            }
            if (!sending)
            {
                for (std::size_t k = 0; k < (std::size_t)N; ++k) m.data[k] = peer[k];
                check<T>(b, m, w + " received");
            }
            else check<T>(b, m, w + " sent");
            for (int extra = 0; extra < 2; ++extra) H_CHECK(b.isComplete(), w << ": no longer complete");
            check<T>(b, m, w + " after completion");
            b.finaliseComm();
            // let the other ends finish
            while (!todo.empty())
            {
                peerPost(*todo.begin());
                todo.erase(todo.begin());
            }
            for (int spin = 0;; ++spin)
            {
                peerTest();
                bool open = false;
                for (auto q : preq) open |= q != MPI_REQUEST_NULL;
                if (!open) break;
                H_CHECK(spin < 100000, w << ": a peer never gets its message");
            }
            if (sending)
                for (std::size_t k = 0; k < (std::size_t)N; ++k) H_CHECK(peer[k] == m.data[k], w << ": rank " << k << " received something else");
            H_CHECK(NFMPI::open() == 0 && NFMPI::unmatched() == 0, w << ": " << NFMPI::open() << " requests are still open, " << NFMPI::unmatched() << " messages unmatched");
            H::count("messages over the whole buffer");
        });
    }
}
