// P07, P08, P09, P14: long histories and large numbers at the level of the
// components, where thousands of connections cost milliseconds.
#include "pbt.h"
#include "vclock.h"

#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_connectionstats.h>
#include <amqpprox_datacenter.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>

#include <boost/asio.hpp>
#include <boost/log/core.hpp>

#include <deque>
#include <memory>
#include <optional>

using namespace Bloomberg::amqpprox;
using pbt::Ctx;

namespace {
void quiet()
{
    boost::log::core::get()->set_logging_enabled(false);
}
using Choice = std::vector<std::string>;  // names in the order tried
}

// ------------------------------------------------------------- round robin
PBT_TARGET(robin_any,
           "a farm of 1-24 backends, plain or split by datacenter, shared by several vhosts; up to 3000 connections, in phases with "
           "and without refusals. Non-trivial: at least two backends and more than 260 connections.")
{
    quiet();
    BackendStore             backends;
    FarmStore                farms;
    ResourceMapper           mapper;
    ConnectionLimiterManager limits;
    RobinBackendSelector     robin;
    Datacenter               dc;
    dc.set("east");
    AffinityPartitionPolicy  affinity(&dc);
    ConnectionSelector       selector(&farms, &backends, &mapper, &limits);

    std::size_t              n = 1 + c.size(0, 23);
    std::vector<std::string> members;
    std::set<std::string>    own, all;
    bool                     split = c.flip();
    for (std::size_t i = 0; i < n; ++i) {
        std::string name = "b" + std::to_string(i);
        bool        e    = c.flip();
        backends.insert(Backend(name, e ? "east" : "west", "127.0.0.1", "127.0.0.1", 1000 + (int)i));
        members.push_back(name);
        all.insert(name);
        if (e)
            own.insert(name);
    }
    farms.addFarm(std::make_unique<Farm>("f", members, &backends, &robin));
    if (split)
        farms.getFarmByName("f").addPartitionPolicy(&affinity);
    std::vector<std::string> vhosts = {"v0", "v1", "v2"};
    for (auto &v : vhosts)
        mapper.mapVhostToFarm(v, "f");
    const std::set<std::string> &top = split && !own.empty() ? own : all;
    std::map<std::string, SessionState> states;
    for (auto &v : vhosts)
        states[v].setVirtualHost(v);

    std::deque<std::string> window;  // first choices since the last refusal
    std::size_t             total = 0, phases = 1 + c.below(6);
    for (std::size_t p = 0; p < phases; ++p) {
        bool        refusing = c.chance(1, 3);
        std::size_t run      = refusing ? c.size(1, 30) : c.size(1, 1500);
        c.note(refusing ? "refusing " : "accepting ", run);
        for (std::size_t i = 0; i < run; ++i, ++total) {
            const std::string                 &v = vhosts[(total * 7 + p) % 3];
            std::shared_ptr<ConnectionManager> m;
            c.check(selector.acquireConnection(&m, states[v]) == SessionState::ConnectionStatus::SUCCESS, "no connection for a mapped vhost");
            const Backend *b = m->getConnection(0);
            c.check(b, "no backend for a farm with members");
            c.check(m->getConnection(0) == b, "asked twice for the same attempt, the answers differ");
            c.check(top.count(b->name()), "first choice ", b->name(), " is not in the highest-priority partition");
            if (!refusing) {
                window.push_back(b->name());
                if (window.size() > top.size())
                    window.pop_front();
                if (window.size() == top.size()) {
                    std::set<std::string> seen(window.begin(), window.end());
                    c.check(seen.size() == top.size(), "connection ", total, ": of the last ", top.size(), " connections to ", top.size(),
                            " backends two went to the same one");
                }
                else
                    for (std::size_t k = 0; k + 1 < window.size(); ++k)
                        c.check(window[k] != b->name(), "a backend was used again before the others");
                continue;
            }
            // refused: all of them one after the other
            window.clear();
            std::size_t           stop = 1 + c.below(n + 2);
            std::set<std::string> seen;
            bool                  lower = false;
            for (std::size_t k = 0; k < stop; ++k) {
                const Backend *x = m->getConnection(k);
                if (k >= n) {
                    c.check(!x, "an attempt beyond the number of backends");
                    break;
                }
                c.check(x, "only ", k, " of ", n, " backends tried");
                c.check(m->getConnection(k) == x, "asked twice for the same attempt, the answers differ");
                c.check(seen.insert(x->name()).second, x->name(), " tried twice");
                if (top.count(x->name()))
                    c.check(!lower, "a higher-priority backend was tried after a lower one");
                else
                    lower = true;
            }
        }
    }
    if (n >= 2 && total > 260)
        c.nontrivial();
}

// -------------------------------------------------------------- partitions
PBT_TARGET(policy_any,
           "a set of up to 24 backends in up to 6 partitions, as an earlier policy may have left it, split by datacenter one to three "
           "times. Non-trivial: two partitions and both own and other members in one of them.")
{
    quiet();
    Datacenter                          dc;
    std::deque<Backend>                 store;
    std::vector<BackendSet::Partition>  parts;
    std::vector<std::string>            tags = {"east", "west", "", "East", "eas"};
    bool                                mixed = false;
    for (std::size_t p = 0, np = c.below(7); p < np; ++p) {
        BackendSet::Partition part;
        std::set<std::string> t;
        for (std::size_t i = 0, k = c.size(0, 6); i < k; ++i) {
            store.emplace_back("b" + std::to_string(store.size()), c.pick(tags), "h", "127.0.0.1", 1);
            t.insert(store.back().datacenterTag());
            part.push_back(&store.back());
        }
        mixed = mixed || t.size() > 1;
        parts.push_back(part);
    }
    auto                    set = std::make_shared<BackendSet>(parts);
    AffinityPartitionPolicy policy(&dc);
    for (std::size_t round = 0, n = 1 + c.below(3); round < n; ++round) {
        std::string own = c.pick(tags);
        dc.set(own);
        auto before = set->partitions();
        set         = policy.partition(set);
        auto after  = set->partitions();
        // where each backend was and is
        std::map<const Backend *, std::size_t> from, to;
        std::size_t                            nb = 0, na = 0;
        for (std::size_t i = 0; i < before.size(); ++i)
            for (auto b : before[i]) {
                from[b] = i;
                ++nb;
            }
        for (std::size_t i = 0; i < after.size(); ++i)
            for (auto b : after[i]) {
                c.check(from.count(b), "a member was invented");
                to[b] = i;
                ++na;
            }
        c.check(na == nb && to.size() == from.size(), nb, " members before, ", na, " after, ", to.size(), " different");
        for (auto &a : from)
            for (auto &b : from) {
                bool ao = a.first->datacenterTag() == own, bo = b.first->datacenterTag() == own;
                if (a.second < b.second)
                    c.check(to[a.first] < to[b.first], "members an earlier policy separated changed order or were joined");
                else if (a.second == b.second && ao && !bo)
                    c.check(to[a.first] < to[b.first], "a member of another datacenter is not behind one of the own");
                else if (a.second == b.second && ao == bo)
                    c.check(to[a.first] == to[b.first], "members with nothing between them were separated");
            }
    }
    if (parts.size() >= 2 && mixed)
        c.nontrivial();
}

// ------------------------------------------------------------------ limits
namespace {
struct Win {
    bool     started = false;
    int64_t  since   = 0;
    uint64_t count   = 0;
    bool operator<(const Win &o) const { return std::tie(started, since, count) < std::tie(o.started, o.since, o.count); }
};
struct VL {
    std::optional<uint64_t> own;
    std::set<Win>           wins;
};
}
PBT_TARGET(limiter_any,
           "up to 60 changes of limits and alarms for four vhosts and the default, clock advances around the window edge, and bursts of "
           "up to 70000 connections against limits of any size; each decision compared with the fixed windows the configuration allows. "
           "Non-trivial: connections both admitted and refused.")
{
    quiet();
    vclock::enable();
    ConnectionLimiterManager lim;
    std::vector<std::string> vhosts = {"v0", "V0", "", std::string(255, 'x')};
    std::map<std::string, VL> m;
    std::optional<uint64_t>   def;
    std::size_t               adm = 0, ref = 0;
    auto restart = [&](const std::string &v) {
        Win f;
        m[v].wins.insert(f);
        f.started = true;
        f.since   = vclock::nowMs();
        m[v].wins.insert(f);
    };
    auto restartDefaults = [&] {
        for (auto &v : vhosts)
            if (!m[v].own)
                restart(v);
    };
    auto genLimit = [&]() -> uint64_t {
        return c.flip() ? c.below(6) : c.oneof<uint64_t>({127, 128, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 2147483648u, 4294967295u});
    };
    for (std::size_t k = 0, n = 4 + c.size(0, 56); k < n; ++k) {
        const std::string &v = c.pick(vhosts);
        switch (c.weighted({8, 5, 3, 2, 1, 1, 1, 1, 1})) {
        case 0: {
            std::size_t burst = c.flip() ? 1 + c.below(8) : c.oneof<std::size_t>({100, 130, 256, 258, 300, 1001, 33000, 70000});
            if (burst > 2000 && !c.chance(1, 4))
                burst = 258;
            auto l = m[v].own ? m[v].own : def;
            c.note("burst ", burst, " for ", v.substr(0, 3), " limit ", l ? (long long)*l : -1);
            for (std::size_t i = 0; i < burst; ++i) {
                bool ok = lim.allowNewConnectionForVhost(v);
                ok ? ++adm : ++ref;
                if (!l) {
                    c.check(ok, "refused without a limit");
                    continue;
                }
                if (m[v].wins.empty())
                    restart(v);
                std::set<Win> next;
                int64_t       now = vclock::nowMs();
                for (Win s : m[v].wins) {
                    if (!s.started || now - s.since >= 1000) {
                        s.started = true;
                        s.since   = now;
                        s.count   = 0;
                    }
                    bool may = s.count < *l;
                    if (may)
                        ++s.count;
                    if (may == ok)
                        next.insert(s);
                }
                c.check(!next.empty(), "connection ", i, " of a burst was ", ok ? "admitted beyond" : "refused within", " the limit of ", *l, " per second");
                m[v].wins = next;
            }
            break;
        }
        case 1: vclock::addMs(c.oneof<int>({1, 100, 499, 500, 999, 1000, 1001, 2500, 60000})); break;
        case 2: {
            uint64_t l = genLimit();
            lim.addConnectionRateLimiter(v, l);
            m[v].own = l;
            restart(v);
            break;
        }
        case 3: {
            uint64_t l = genLimit();
            lim.setDefaultConnectionRateLimit(l);
            def = l;
            restartDefaults();
            break;
        }
        case 4:
            lim.removeConnectionRateLimiter(v);
            m[v].own.reset();
            restart(v);
            break;
        case 5:
            lim.removeDefaultConnectionRateLimit();
            def.reset();
            restartDefaults();
            break;
        case 6: lim.addAlarmOnlyConnectionRateLimiter(v, genLimit()); break;
        case 7: lim.setAlarmOnlyDefaultConnectionRateLimit(genLimit()); break;
        default: c.flip() ? lim.removeAlarmOnlyConnectionRateLimiter(v) : lim.removeAlarmOnlyDefaultConnectionRateLimit(); break;
        }
    }
    if (adm && ref)
        c.nontrivial();
}

// -------------------------------------------------------------- statistics
namespace {
struct Acc {
    uint64_t v[10] = {};
};
struct Sim {
    std::unique_ptr<SessionState> st;
    std::string                   vhost, source, backend;
    uint64_t                      inF = 0, inB = 0, inP = 0, outF = 0, outB = 0, outP = 0;  // since the last collection
    int                           gone = 0;  // 1 client 2 server 3 proxy/cleanly
    bool                          paused = false, denied = false, limited = false;
};
const char *const FIG[] = {"packetsReceived", "framesReceived", "bytesReceived", "packetsSent", "framesSent", "bytesSent"};
}
PBT_TARGET(statsum_any,
           "up to 24 sessions over colliding vhosts, sources and backends with traffic figures of up to 2^50 each, ends of every kind and "
           "up to 12 collections; each collection's figures compared with what happened since the one before. Non-trivial: at least 2 "
           "collections, a session that ended and traffic.")
{
    quiet();
    boost::asio::io_context io;
    StatCollector           sc;
    std::deque<Sim>         live;
    std::vector<std::string> vhosts = {"", "v", "v2", "V", "a b", "v\"x"};
    std::size_t              rounds = 0, ended = 0, traffic = 0;
    auto ep = [](const std::string &ip, int port) { return boost::asio::ip::tcp::endpoint(boost::asio::ip::make_address(ip), port); };
    auto amount = [&] { return c.flip() ? c.below(5000) : c.edgy(50); };
    auto add = [&] {
        Sim         s;
        s.st     = std::make_unique<SessionState>();
        s.vhost  = c.pick(vhosts);
        s.source = c.oneof<const char *>({"10.0.0.1", "10.0.0.2", "::1"});
        std::string bip  = c.oneof<const char *>({"10.1.0.1", "10.1.0.2", "2001:db8::1"});
        int         bport = c.oneof<int>({5672, 5671, 65535});
        s.backend = bip + "_" + std::to_string(bport);
        s.st->setIngress(io, ep("127.0.0.1", 5672), ep(s.source, 1024 + (int)c.below(60000)));
        s.st->setEgress(io, ep("127.0.0.1", 1024 + (int)c.below(60000)), ep(bip, bport));
        s.st->setVirtualHost(s.vhost);
        live.push_back(std::move(s));
    };
    auto step = [&](Sim &s) {
        switch (c.weighted({6, 6, 2, 1, 1, 1})) {
        case 0: {
            uint64_t f = c.below(2000), b = amount();
            s.st->incrementIngressTotals(f, b);
            s.inF += f;
            s.inB += b;
            ++s.inP;
            ++traffic;
            break;
        }
        case 1: {
            uint64_t f = c.below(2000), b = amount();
            s.st->incrementEgressTotals(f, b);
            s.outF += f;
            s.outB += b;
            ++s.outP;
            ++traffic;
            break;
        }
        case 2:
            if (!s.gone) {
                using D = SessionState::DisconnectType;
                int k   = 1 + (int)c.below(4);
                s.st->setDisconnected(k == 1 ? D::DISCONNECTED_CLIENT : k == 2 ? D::DISCONNECTED_SERVER : k == 3 ? D::DISCONNECTED_PROXY : D::DISCONNECTED_CLEANLY);
                s.gone = std::min(k, 3);
            }
            break;
        case 3:
            s.paused = !s.paused;
            s.st->setPaused(s.paused);
            break;
        case 4:
            s.denied = true;
            s.st->setAuthDeniedConnection(true);
            break;
        default:
            s.limited = true;
            s.st->setLimitedConnection();
            break;
        }
    };
    std::size_t nRounds = 1 + c.below(12);
    for (; rounds < nRounds; ++rounds) {
        for (std::size_t i = 0, n = c.below(5); i < n && live.size() < 24; ++i)
            add();
        for (std::size_t i = 0, n = c.size(0, 40); i < n && !live.empty(); ++i)
            step(live[c.below(live.size())]);
        StatSnapshot snap;
        for (auto &s : live)
            sc.collect(*s.st);
        sc.populateStats(&snap);
        std::map<std::string, std::map<std::string, uint64_t>> want[4];
        for (auto &s : live) {
            std::string keys[4] = {"", s.vhost, s.backend, s.source};
            for (int a = 0; a < 4; ++a) {
                auto &w = want[a][keys[a]];
                w["packetsReceived"] += s.inP;
                w["framesReceived"] += s.inF;
                w["bytesReceived"] += s.inB;
                w["packetsSent"] += s.outP;
                w["framesSent"] += s.outF;
                w["bytesSent"] += s.outB;
                w["removedConnectionClientSnapped"] += s.gone == 1;
                w["removedConnectionBrokerSnapped"] += s.gone == 2;
                w["removedConnectionGraceful"] += s.gone == 3;
                w["activeConnectionCount"] += s.gone == 0;
                w["pausedConnectionCount"] += s.paused;
                w["authDeniedConnectionCount"] += s.denied;
                w["limitedConnectionCount"] += s.limited;
            }
        }
        if (want[0].empty())
            for (auto &f : {"packetsReceived", "framesReceived", "bytesReceived", "packetsSent", "framesSent", "bytesSent", "activeConnectionCount"})
                want[0][""][f] = 0;
        auto compare = [&](const std::string &what, const ConnectionStats &got, std::map<std::string, uint64_t> &w) {
            for (auto &f : w)
                c.check(got.statsValue(f.first) == f.second, "collection ", rounds, ": ", what, " ", f.first, " is ", got.statsValue(f.first), ", should be ", f.second);
        };
        compare("overall", snap.overall(), want[0][""]);
        StatSnapshot::StatsMap *maps[4] = {nullptr, &snap.vhosts(), &snap.backends(), &snap.sources()};
        for (int a = 1; a < 4; ++a) {
            for (auto &e : want[a]) {
                auto it = maps[a]->find(e.first);
                c.check(it != maps[a]->end(), "collection ", rounds, ": ", pbt::show(e.first), " is missing");
                compare(pbt::show(e.first), it->second, e.second);
            }
            for (auto &e : *maps[a])
                if (!want[a].count(e.first)) {
                    std::map<std::string, uint64_t> zero;
                    for (auto f : FIG)
                        zero[f] = 0;
                    compare(pbt::show(e.first) + " (gone)", e.second, zero);
                }
        }
        for (std::size_t i = 0; i < live.size();) {
            Sim &s = live[i];
            s.inF = s.inB = s.inP = s.outF = s.outB = s.outP = 0;
            if (s.gone) {
                sc.deletedSession(*s.st);
                live.erase(live.begin() + i);
                ++ended;
            }
            else
                ++i;
        }
        sc.reset();
    }
    if (rounds >= 2 && ended && traffic)
        c.nontrivial();
}
