// P15: the statistics formatters and the statistics daemon publisher.
#include "json.h"
#include "pbt.h"

#include <amqpprox_connectionstats.h>
#include <amqpprox_humanstatformatter.h>
#include <amqpprox_jsonstatformatter.h>
#include <amqpprox_statsdpublisher.h>
#include <amqpprox_statsnapshot.h>

#include <boost/asio.hpp>

#include <arpa/inet.h>
#include <cmath>
#include <cstring>
#include <sys/socket.h>
#include <unistd.h>

using namespace Bloomberg::amqpprox;
using pbt::Ctx;

namespace {
const std::vector<std::string> VALUES = {"pausedConnectionCount",          "activeConnectionCount",          "authDeniedConnectionCount",
                                         "limitedConnectionCount",         "removedConnectionGraceful",      "removedConnectionBrokerSnapped",
                                         "removedConnectionClientSnapped", "packetsReceived",                "packetsSent",
                                         "framesReceived",                 "framesSent",                     "bytesReceived",
                                         "bytesSent"};

std::string genName(Ctx &c)
{
    switch (c.weighted({3, 3, 2, 2, 1, 1, 1})) {
    case 0: return c.text(1 + c.below(8), "ab/._-");
    case 1: return c.text(c.below(10), "a\"\\:,=|{}[]\n\t #@/'%");
    case 2: return c.bytes(c.below(8));
    case 3: return c.oneof<std::string>({"/", "::1", "fe80::1%eth0", "127.0.0.1_5672", "::1_5672", "host.example.com", "a b", "\xc3\xa9\xe2\x82\xac"});
    case 4: return c.bulk(255);
    case 5: return std::string(c.below(3), '"') + "\\";
    default: return "";
    }
}
uint64_t genValue(Ctx &c)
{
    return c.flip() ? c.below(2000) : c.edgy(64);
}
ConnectionStats genStats(Ctx &c)
{
    ConnectionStats s;
    for (auto &n : VALUES)
        s.statsValue(n) = genValue(c);
    for (const char *d : {"sendLatency", "receiveLatency"})
        if (c.flip())
            s.addDistributionStats(d, c.below(1000000), c.below(5));
    return s;
}
StatSnapshot genSnap(Ctx &c, std::size_t most)
{
    StatSnapshot s;
    s.overall() = genStats(c);
    for (auto *m : {&s.vhosts(), &s.backends(), &s.sources()})
        for (std::size_t i = 0, n = c.below(most + 1); i < n; ++i)
            (*m)[genName(c)] = genStats(c);
    s.process().d_rssKB   = c.edgy(50);
    s.process().d_user    = (uint16_t)c.edgy(16);
    s.process().d_system  = (uint16_t)c.edgy(16);
    s.process().d_overall = (uint16_t)c.edgy(16);
    s.poolSpillover()     = genValue(c);
    for (std::size_t i = 0, n = c.below(4); i < n; ++i) {
        StatSnapshot::PoolStats p;
        p.d_bufferSize        = 32 << i;
        p.d_highwaterMark     = genValue(c);
        p.d_currentAllocation = genValue(c);
        s.pool().push_back(p);
    }
    return s;
}
void sameStats(Ctx &c, const js::Value &v, const ConnectionStats &s, const std::string &who)
{
    c.check(v.kind == 'o', who, " is not an object");
    for (auto &n : VALUES)
        c.check(v.at(n).kind == 'i' && !v.at(n).neg && v.u(n) == s.statsValue(n), who, ".", n, " reads back as ", v.u(n), " instead of ", s.statsValue(n));
    c.check(v.o.size() == VALUES.size(), who, " has ", v.o.size(), " values");
}
}

PBT_TARGET(json_any,
           "snapshots with up to 12 entities of arbitrary names (quotes, control characters, any bytes) and arbitrary 64-bit values, parsed by a strict "
           "JSON reader. Non-trivial: at least one entity")
{
    StatSnapshot       s = genSnap(c, 4);
    JsonStatFormatter  f;
    std::ostringstream os;
    f.format(os, s);
    js::Value   v;
    std::string t = os.str();
    c.note("output: ", pbt::show(t, 2000));
    js::Parser p(t);
    c.check(p.whole(v), "not JSON: ", p.err);
    sameStats(c, v.at("overall"), s.overall(), "overall");
    std::vector<std::pair<const char *, const StatSnapshot::StatsMap *>> maps = {
        {"vhosts", &s.vhosts()}, {"backends", &s.backends()}, {"sources", &s.sources()}};
    for (auto &m : maps) {
        c.check(v.at(m.first).kind == 'o' && v.at(m.first).o.size() == m.second->size(), m.first, " has ", v.at(m.first).o.size(), " entries instead of ",
                m.second->size());
        for (auto &e : *m.second) {
            c.check(v.at(m.first).has(e.first), m.first, " lacks ", pbt::show(e.first, 100));
            sameStats(c, v.at(m.first).at(e.first), e.second, m.first);
            c.nontrivial();
        }
    }
    auto &pr = v.at("process");
    c.check(pr.u("mem_rss_kb") == s.process().d_rssKB && pr.u("cpu_percent_user") == s.process().d_user && pr.u("cpu_percent_system") == s.process().d_system &&
                pr.u("cpu_percent_overall") == s.process().d_overall,
            "process figures differ");
    auto &bp = v.at("bufferpool");
    c.check(bp.u("spill_to_heap_count") == s.poolSpillover() && bp.at("pools").o.size() == s.pool().size(), "pool figures differ");
    for (auto &p2 : s.pool()) {
        auto &x = bp.at("pools").at(std::to_string(p2.d_bufferSize));
        c.check(x.u("current") == p2.d_currentAllocation && x.u("highest") == p2.d_highwaterMark, "pool ", p2.d_bufferSize, " figures differ");
    }
    // the parts on their own
    std::ostringstream o2;
    f.format(o2, s.overall());
    js::Value   v2;
    std::string t2 = o2.str();
    js::Parser  p2(t2);
    c.check(p2.whole(v2), "overall alone is not JSON: ", p2.err);
    sameStats(c, v2, s.overall(), "overall alone");
}

PBT_TARGET(human_any, "one entity's figures in the human form, read back. Non-trivial: always")
{
    ConnectionStats    s = genStats(c);
    HumanStatFormatter f;
    std::ostringstream os;
    f.format(os, s);
    std::string t = os.str();
    c.note("output: ", t);
    c.nontrivial();
    auto after = [&](const std::string &lab, std::size_t from = 0) {
        auto p = t.find(lab, from);
        c.check(p != std::string::npos, "no ", lab);
        return p + lab.size();
    };
    auto num = [&](const std::string &lab, const char *name) {
        std::string want = std::to_string(s.statsValue(name));
        auto        p    = after(lab);
        c.check(t.compare(p, want.size(), want) == 0 && (p + want.size() == t.size() || !isdigit((unsigned char)t[p + want.size()])), lab, " is not ", want);
    };
    num("Paused: ", "pausedConnectionCount");
    num("Active: ", "activeConnectionCount");
    num("Auth denied: ", "authDeniedConnectionCount");
    num("Limited connections: ", "limitedConnectionCount");
    num("Removed(Clean): ", "removedConnectionGraceful");
    num("Removed(Broker): ", "removedConnectionBrokerSnapped");
    num("Removed(Client): ", "removedConnectionClientSnapped");
    for (int dir = 0; dir < 2; ++dir) {
        auto               p = after(dir ? "OUT: " : "IN: ");
        std::istringstream is(t.substr(p));
        double             b;
        std::string        unit, pu, fu;
        uint64_t           pk, fr;
        is >> b >> unit >> pk >> pu >> fr >> fu;
        c.check(!!is && pu == "pkt/s" && fu.substr(0, 8) == "frames/s", "cannot read ", t.substr(p));
        c.check(pk == s.statsValue(dir ? "packetsSent" : "packetsReceived"), "packets");
        c.check(fr == s.statsValue(dir ? "framesSent" : "framesReceived"), "frames");
        double mul = 0;
        if (unit == "B/s")
            mul = 1;
        if (unit == "KB/s")
            mul = 1024.0;
        if (unit == "MB/s")
            mul = 1024.0 * 1024;
        if (unit == "GB/s")
            mul = 1024.0 * 1024 * 1024;
        c.check(mul > 0, "unit ", unit);
        double want = (double)s.statsValue(dir ? "bytesSent" : "bytesReceived");
        c.check(std::fabs(b * mul - want) <= want * 1e-4 + 0.5, "bytes ", b, " ", unit, " instead of ", want);
    }
    // the whole snapshot: sections in which every entity has its line
    StatSnapshot snap;
    snap.overall() = s;
    for (auto *m : {&snap.vhosts(), &snap.backends(), &snap.sources()})
        for (std::size_t i = 0, n = c.below(4); i < n; ++i)
            (*m)[c.text(1 + c.below(6), "ab/._-12")] = genStats(c);
    snap.process().d_rssKB   = c.below(1 << 30);
    snap.process().d_user    = (uint16_t)c.edgy(16);
    snap.process().d_system  = (uint16_t)c.edgy(16);
    snap.process().d_overall = (uint16_t)c.edgy(16);
    snap.poolSpillover()     = genValue(c);
    for (std::size_t i = 0, n = c.below(4); i < n; ++i) {
        StatSnapshot::PoolStats p;
        p.d_bufferSize        = 32 << i;
        p.d_highwaterMark     = genValue(c);
        p.d_currentAllocation = genValue(c);
        snap.pool().push_back(p);
    }
    std::ostringstream all;
    f.format(all, snap);
    c.note("snapshot: ", all.str());
    std::vector<std::string> ln;
    std::istringstream       is(all.str());
    for (std::string x; std::getline(is, x);)
        ln.push_back(x);
    std::map<std::string, std::vector<std::string>> sec;
    std::string                                     cur;
    for (auto &l : ln) {
        bool head = false;
        for (const char *h : {"Overall:", "Process:", "BufferPool:", "Vhosts:", "Sources:", "Backends:"})
            head = head || l == h;
        if (head)
            cur = l, sec[cur];
        else
            sec[cur].push_back(l);
    }
    auto one = [&](const ConnectionStats &st) {
        std::ostringstream o;
        f.format(o, st);
        return o.str();
    };
    c.check(sec["Overall:"] == std::vector<std::string>{t}, "the overall section is not the overall figures");
    std::vector<std::pair<const char *, const StatSnapshot::StatsMap *>> maps = {
        {"Vhosts:", &snap.vhosts()}, {"Backends:", &snap.backends()}, {"Sources:", &snap.sources()}};
    for (auto &m : maps) {
        std::multiset<std::string> want, have(sec[m.first].begin(), sec[m.first].end());
        for (auto &e : *m.second)
            want.insert(e.first + ": " + one(e.second));
        c.check(want == have, m.first, " does not have a line with the figures of each entity");
    }
    c.check(sec["Process:"].size() == 1 && sec["BufferPool:"].size() == 1, "process or buffer pool section");
    std::istringstream pi(sec["Process:"][0]);
    std::string        w1, w2, w3;
    uint64_t           a1, a2, a3;
    pi >> w1 >> a1 >> w2 >> a2 >> w3 >> a3;
    c.check(w1 == "CPU%:" && a1 == snap.process().d_overall && w2 == "USR%:" && a2 == snap.process().d_user && w3 == "SYS%:" && a3 == snap.process().d_system,
            "process figures: ", sec["Process:"][0]);
    std::string bp = sec["BufferPool:"][0];
    c.check(bp.rfind("Spilt to heap: " + std::to_string(snap.poolSpillover()) + ",", 0) == 0, "buffer pool figures: ", bp);
    for (auto &p : snap.pool())
        c.check(bp.find(" " + std::to_string(p.d_bufferSize) + "=" + std::to_string(p.d_currentAllocation) + "/" + std::to_string(p.d_highwaterMark)) !=
                    std::string::npos,
                "pool ", p.d_bufferSize, " in ", bp);
}

PBT_TARGET(statsd_any,
           "snapshots with up to 6 entities sent to a UDP socket; every datagram must be one well-formed metric and together they must carry exactly the "
           "snapshot's values. Non-trivial: at least one entity")
{
    StatSnapshot s  = genSnap(c, 2);
    int          fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    sockaddr_in  a  = {};
    a.sin_family    = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr *)&a, sizeof a))
        c.discard();
    int big = 4000000;
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
    socklen_t al = sizeof a;
    getsockname(fd, (sockaddr *)&a, &al);
    std::vector<std::string> got;
    {
        boost::asio::io_context io;
        StatsDPublisher         p(&io, "127.0.0.1", ntohs(a.sin_port));
        p.publish(s);
        for (int i = 0; i < 1000 && io.poll(); ++i)
            ;
        char    b[70000];
        ssize_t n;
        while ((n = recv(fd, b, sizeof b, 0)) >= 0)
            got.emplace_back(b, n);
    }
    close(fd);
    // what is expected: metric, kind of entity, safe name or "?", value
    using Row = std::vector<std::string>;
    std::multiset<Row> want, have;
    auto               safe = [](const std::string &n) {
        for (unsigned char ch : n)
            if (!isalnum(ch) && (!ch || !strchr("/._-", ch)))
                return std::string("?");
        return n.empty() ? std::string("?") : n;
    };
    auto entity = [&](const ConnectionStats &st, const std::string &type, const std::string &name) {
        for (auto &n : VALUES)
            want.insert({n, type, name, std::to_string(st.statsValue(n))});
        for (const char *d : {"sendLatency", "receiveLatency"})
            if (st.distributionCount(d) > 0)
                want.insert({d, type, name, "~" + std::to_string((uint64_t)(st.distributionPair(d).first / st.distributionPair(d).second))});
    };
    entity(s.overall(), "overall", "");
    for (auto &e : s.vhosts())
        if (!e.first.empty()) {
            entity(e.second, "vhost", safe(e.first));
            c.nontrivial();
        }
    for (auto &e : s.sources())
        entity(e.second, "sources", safe(e.first)), c.nontrivial();
    for (auto &e : s.backends())
        entity(e.second, "backends", safe(e.first)), c.nontrivial();
    want.insert({"cpu_percent_overall", "", "", std::to_string(s.process().d_overall)});
    want.insert({"cpu_percent_user", "", "", std::to_string(s.process().d_user)});
    want.insert({"cpu_percent_system", "", "", std::to_string(s.process().d_system)});
    want.insert({"mem_rss_kb", "", "", std::to_string(s.process().d_rssKB)});
    want.insert({"spill_to_heap_count", "", "", std::to_string(s.poolSpillover())});
    for (auto &p : s.pool()) {
        want.insert({"pools_" + std::to_string(p.d_bufferSize) + "_current", "", "", std::to_string(p.d_currentAllocation)});
        want.insert({"pools_" + std::to_string(p.d_bufferSize) + "_highest", "", "", std::to_string(p.d_highwaterMark)});
    }
    const std::set<std::string> gauges = {"pausedConnectionCount", "activeConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount"};
    for (auto &d : got) {
        // amqpprox.<metric>{,tag=value}:<number>|<type>
        auto colon = d.find(':');
        c.check(d.rfind("amqpprox.", 0) == 0 && colon != std::string::npos && colon == d.rfind(':'), "malformed datagram ", pbt::show(d, 300));
        std::string head = d.substr(9, colon - 9), tail = d.substr(colon + 1);
        auto        bar = tail.find('|');
        c.check(bar != std::string::npos && bar == tail.rfind('|') && tail.size() == bar + 2 && tail[bar + 1] && strchr("gcd", tail[bar + 1]), "malformed datagram ",
                pbt::show(d, 300));
        std::string value = tail.substr(0, bar);
        c.check(!value.empty() && value.find_first_not_of("0123456789.") == std::string::npos, "malformed value in ", pbt::show(d, 300));
        for (unsigned char ch : head)
            c.check(ch > 32 && ch != 127 && !strchr("|@#", ch), "character ", (int)ch, " in the name of ", pbt::show(d, 300));
        std::vector<std::string> parts;
        std::istringstream       is(head);
        for (std::string x; std::getline(is, x, ',');)
            parts.push_back(x);
        c.check(!parts.empty(), "malformed datagram ", pbt::show(d, 300));
        Row r = {parts[0], "", "", value};
        for (std::size_t i = 1; i < parts.size(); ++i) {
            auto eq = parts[i].find('=');
            c.check(eq != std::string::npos && eq == parts[i].rfind('='), "malformed tag in ", pbt::show(d, 300));
            std::string k = parts[i].substr(0, eq), v = parts[i].substr(eq + 1);
            if (k == "rmqEndpointType")
                r[1] = v;
            else if (k == "rmqVhostName" || k == "rmqEndpointHostname")
                r[2] = v;
            else
                c.fail("unknown tag in " + pbt::show(d, 300));
        }
        if (tail[bar + 1] == 'd')
            r[3] = "~" + std::to_string((uint64_t)std::stod(value));
        else
            c.check((tail[bar + 1] == 'g') == (gauges.count(parts[0]) > 0), "metric type of ", pbt::show(d, 300));
        have.insert(r);
    }
    c.check(have.size() == want.size(), have.size(), " datagrams instead of ", want.size());
    // unsafe names may be written in any safe way
    for (auto it = want.begin(); it != want.end();) {
        if ((*it)[2] != "?") {
            auto h = have.find(*it);
            if (h == have.end()) {
                ++it;
                continue;
            }
            have.erase(h);
            it = want.erase(it);
        }
        else
            ++it;
    }
    std::multiset<Row> w2, h2;
    for (auto r : want) {
        c.check(r[2] == "?", "missing metric ", r[0], " of ", r[1], " ", pbt::show(r[2], 80), " with value ", r[3]);
        r[2] = "?";
        w2.insert(r);
    }
    for (auto r : have) {
        r[2] = "?";
        h2.insert(r);
    }
    c.check(w2 == h2, "the metrics of entities with special names do not carry their values");
}
