#include "scen.h"
#include "sysnet.h"
#include <cerrno>
#include <algorithm>
#include <sys/socket.h>
#include <unistd.h>

namespace {
struct BE {
    int         broker;
    std::string dc;
};
// What the configuration commands mean.
struct Model {
    std::map<std::string, BE>                                      backends;
    std::map<std::string, std::set<std::string>>                   farms;     // names given
    std::map<std::string, int>                                     policies;  // times partitioned
    std::map<std::string, std::pair<bool, std::string>>            maps;      // vhost -> farm?, name
    std::string                                                    deflt, dc;
    enum Kind { BACKEND, FARM, NONE, EMPTY };
    struct Target {
        Kind                               kind = NONE;
        std::vector<std::set<std::string>> parts;  // in priority order
    };
    Target lookup(const std::string &vhost) const
    {
        Target      t;
        bool        farm = true;
        std::string name;
        auto        it = maps.find(vhost);
        if (it != maps.end()) {
            farm = it->second.first;
            name = it->second.second;
        }
        else if (!deflt.empty())
            name = deflt;
        else
            return t;
        if (!farm) {
            if (!backends.count(name))
                return t;
            t.kind  = BACKEND;
            t.parts = {{name}};
            return t;
        }
        if (!farms.count(name))
            return t;
        t.kind = FARM;
        std::set<std::string> here, there;
        for (auto &m : farms.at(name))
            if (backends.count(m)) {
                bool near = policies.count(name) && policies.at(name) && backends.at(m).dc == dc;
                (near ? here : there).insert(m);
            }
        if (!here.empty())
            t.parts.push_back(here);
        if (!there.empty())
            t.parts.push_back(there);
        if (t.parts.empty())
            t.kind = EMPTY;
        return t;
    }
};

struct Names {
    std::vector<std::string> b, f, v, d;
};
Names genNames(pbt::Ctx &c)
{
    Names n;
    n.b = {"b0", "b1", "B1", "b-2", "b10", "z"};
    n.f = {"f", "F", "farm2", "b0"};
    n.v = {"v", "V", "/", "other/vhost", "v%2f"};
    n.d = {"east", "west", "EAST", "north"};
    n.v.push_back(std::string(200 + c.below(56), 'x'));
    return n;
}
std::string sub(pbt::Ctx &c, const std::string &s) { return c.chance(1, 5) ? lower(s) : s; }

// One random configuration command, applied to the model as well.
void configStep(World &w, Model &m, const Names &n, bool partitions)
{
    pbt::Ctx &c = w.c;
    switch (c.weighted({6, 3, 5, 1, partitions ? 4u : 1u, 4, 4, 2, 2, 1, partitions ? 4u : 1u})) {
    case 0: {
        std::string name = c.pick(n.b), dc = c.pick(n.d);
        int         br = (int)c.below(w.brokers.size());
        auto       &bk = *w.brokers[br];
        std::string r  = w.ctl("BACKEND " + sub(c, "ADD") + " " + name + " " + dc + " " + bk.lis.ip + " " + std::to_string(bk.lis.port));
        if (!m.backends.count(name))
            m.backends[name] = {br, dc};
        break;
    }
    case 1: {
        std::string name = c.pick(n.b);
        w.ctl("BACKEND " + sub(c, "DELETE") + " " + name);
        if (m.backends.erase(name))
            c.label("backend deleted");
        break;
    }
    case 2: {
        std::string           name = c.pick(n.f), line = "FARM " + sub(c, "ADD") + " " + name + " round-robin";
        std::set<std::string> mem;
        bool                  ok = true;
        for (std::size_t i = 0, k = 1 + c.size(0, 5); i < k; ++i) {
            std::string b;
            if (!m.backends.empty() && !c.chance(1, 12)) {
                auto it = m.backends.begin();
                std::advance(it, c.below(m.backends.size()));
                b = it->first;
            }
            else
                b = c.pick(n.b);
            line += " " + b;
            mem.insert(b);
            ok = ok && m.backends.count(b);
        }
        w.ctl(line);
        if (ok) {
            m.farms[name] = mem;
            m.policies.erase(name);
        }
        break;
    }
    case 3: {
        std::string name = c.pick(n.f);
        w.ctl("FARM " + sub(c, "DELETE") + " " + name);
        m.farms.erase(name);
        m.policies.erase(name);
        break;
    }
    case 4: {
        std::string name = c.pick(n.f);
        w.ctl("FARM " + sub(c, "PARTITION") + " " + name + " datacenter-affinity");
        if (m.farms.count(name)) {
            m.policies[name]++;
            c.label("partitioned");
        }
        break;
    }
    case 5: {
        std::string v = c.pick(n.v), b = c.pick(n.b);
        w.ctl("MAP " + sub(c, "BACKEND") + " " + v + " " + b);
        m.maps[v] = {false, b};
        break;
    }
    case 6: {
        std::string v = c.pick(n.v), f = c.pick(n.f);
        w.ctl("MAP " + sub(c, "FARM") + " " + v + " " + f);
        m.maps[v] = {true, f};
        break;
    }
    case 7: {
        std::string v = c.pick(n.v);
        w.ctl("MAP " + sub(c, "UNMAP") + " " + v);
        m.maps.erase(v);
        break;
    }
    case 8: {
        m.deflt = c.pick(n.f);
        w.ctl("MAP " + sub(c, "DEFAULT") + " " + m.deflt);
        break;
    }
    case 9:
        m.deflt.clear();
        w.ctl("MAP " + sub(c, "REMOVE_DEFAULT"));
        break;
    case 10:
        m.dc = c.pick(n.d);
        w.ctl("DATACENTER " + sub(c, "SET") + " " + m.dc);
        break;
    }
}
std::set<int> brokersOf(const Model &m, const std::set<std::string> &names)
{
    std::set<int> s;
    for (auto &x : names)
        s.insert(m.backends.at(x).broker);
    return s;
}
}

static void routeHistory(pbt::Ctx &c, bool partitions)
{
    World::run(c, {}, [&](World &w) {
        for (int i = 0; i < 4; ++i)
            w.addBroker();
        int   port = w.listen();
        Names n    = genNames(c);
        Model m;
        std::vector<Sess> open;
        // a starting population
        for (std::size_t i = 0, k = 2 + c.below(4); i < k; ++i) {
            std::string name = n.b[i], dc = c.pick(n.d);
            int         br = (int)c.below(w.brokers.size());
            w.ctl("BACKEND ADD " + name + " " + dc + " 127.0.0.1 " + std::to_string(w.brokers[br]->lis.port));
            m.backends[name] = {br, dc};
        }
        for (std::size_t i = 0, k = c.below(3); i < k; ++i) {
            std::string           line = "FARM ADD " + n.f[i] + " round-robin";
            std::set<std::string> mem;
            for (auto &b : m.backends)
                if (c.flip() || mem.empty()) {
                    mem.insert(b.first);
                    line += " " + b.first;
                }
            w.ctl(line);
            m.farms[n.f[i]] = mem;
            if (c.flip()) {
                w.ctl("MAP FARM " + n.v[i] + " " + n.f[i]);
                m.maps[n.v[i]] = {true, n.f[i]};
            }
            if (partitions && c.flip()) {
                w.ctl("FARM PARTITION " + n.f[i] + " datacenter-affinity");
                m.policies[n.f[i]]++;
            }
        }
        if (c.flip()) {
            w.ctl("MAP DEFAULT f");
            m.deflt = "f";
        }
        if (partitions) {
            m.dc = c.pick(n.d);
            w.ctl("DATACENTER SET " + m.dc);
        }
        std::size_t       steps = 4 + c.size(0, 26), conns = 0;
        for (std::size_t k = 0; k < steps; ++k) {
            if (!c.chance(2, 5) && k + 1 < steps) {
                configStep(w, m, n, partitions);
                continue;
            }
            std::string vhost = c.chance(1, 12) ? "unmapped" : c.pick(n.v);
            if (!m.maps.empty() && c.flip()) {
                auto it = m.maps.begin();
                std::advance(it, c.below(m.maps.size()));
                vhost = it->first;
            }
            auto        t     = m.lookup(vhost);
            std::size_t before = w.brokerConnCount();
            ++conns;
            auto cl = w.login(port, plainLogin(vhost));
            w.note("login ", pbt::show(vhost, 20), " -> ", outcomeOf(*cl));
            if (t.kind == Model::NONE || t.kind == Model::EMPTY) {
                c.label(t.kind == Model::NONE ? "refused" : "farm without members");
                w.until([&] { return cl->ended(); }, 3);
                c.check(!cl->isOpen, "a client of vhost ", pbt::show(vhost), " was let in without a mapping");
                c.check(cl->ended() && !cl->bad, "a client without a mapping is left connected: ", outcomeOf(*cl));
                c.check(w.brokerConnCount() == before, "a broker was contacted for a client without a mapping");
                if (t.kind == Model::NONE) {
                    std::string want = "No known broker mapping for vhost " + vhost;
                    c.check(cl->gotClose, "no Close for a client without a mapping (vhost of ", vhost.size(), " bytes): ", outcomeOf(*cl));
                    c.check(cl->close_.text == want.substr(0, 255) && cl->close_.code == 506, "Close ", cl->close_.code, " ",
                            pbt::show(cl->close_.text), " instead of ", pbt::show(want));
                }
                continue;
            }
            c.label(t.kind == Model::FARM ? "to farm" : "to backend");
            c.nontrivial();
            c.check(cl->isOpen, "login for a mapped vhost did not complete: ", outcomeOf(*cl));
            Sess s;
            s.cl = cl;
            s.br = w.brokerOf(*cl);
            c.check((bool)s.br, "no broker has the client's connection");
            s.vhost = vhost;
            std::set<int> may;
            if (partitions)
                may = brokersOf(m, t.parts[0]);
            else
                for (auto &p : t.parts)
                    for (int b : brokersOf(m, p))
                        may.insert(b);
            if (partitions && t.parts.size() > 1)
                c.label("two partitions");
            c.check(may.count(s.br->backend), "vhost ", pbt::show(vhost), " was connected to broker ", s.br->backend,
                    " which is not ", partitions ? "in its highest-priority partition" : "mapped to it");
            c.check(w.brokerConnCount() == before + 1, "more than one broker was contacted");
            c.check(s.br->op.vhost == vhost, "the broker was given vhost ", pbt::show(s.br->op.vhost));
            if (open.size() < 4)
                open.push_back(s);
            else
                cl->close();
        }
        for (auto &s : open)
            probe(w, s, "an open session after configuration changes");
        (void)conns;
    });
}

PBT_TARGET(route_any,
           "up to 25 BACKEND/FARM/MAP/DATACENTER commands over colliding names interleaved with logins for mapped, unmapped and "
           "stale vhosts; outcome compared with a model of the mapping. Non-trivial: at least one login to an existing mapping.")
{
    routeHistory(c, false);
}

PBT_TARGET(partition_any,
           "the same histories weighted to PARTITION and DATACENTER changes; logins must land in the highest-priority partition. "
           "Non-trivial: at least one login to an existing mapping.")
{
    routeHistory(c, true);
}

// ------------------------------------------------------------------ failover
namespace {
bool v6Works()
{
    static int ok = -1;
    if (ok < 0) {
        World *none = nullptr;
        (void)none;
        int fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in6 a = {};
        a.sin6_family  = AF_INET6;
        a.sin6_addr    = in6addr_loopback;
        ok             = fd >= 0 && bind(fd, (sockaddr *)&a, sizeof a) == 0;
        if (fd >= 0)
            ::close(fd);
    }
    return ok;
}
struct FB {
    std::string      name, dc, host, flags;
    int              port = 0;
    bool             dns  = false, resolves = true;
    std::vector<int> addrs;  // broker indices in answer order
    bool reachable(World &w) const
    {
        if (dns && !resolves)
            return false;
        for (int a : addrs)
            if (!w.brokers[a]->refusing)
                return true;
        return false;
    }
};
}

// `onlyOrder`: everything refuses, so that the lookups show the whole order.
static void failoverHistory(pbt::Ctx &c, bool onlyOrder)
{
    World::run(c, {}, [&](World &w) {
        std::size_t     n = 1 + c.size(0, 6);
        std::vector<FB> bs;
        std::vector<std::string> dcs = {"east", "west", "north"};
        for (std::size_t i = 0; i < n; ++i) {
            FB b;
            b.name = std::string(1, (char)('a' + c.below(26))) + std::to_string(i);
            b.dc   = c.pick(dcs);
            if (c.chance(1, 4))
                b.flags = " SEND-PROXY";
            bool refuse = onlyOrder || c.flip();
            if (onlyOrder || !c.chance(2, 5)) {
                std::string ip = "127.0.0." + std::to_string(1 + c.below(9));
                if (!onlyOrder && v6Works() && b.flags.empty() && c.chance(1, 6))
                    ip = "::1";
                auto *bk = w.addBroker(ip, refuse);
                b.host   = ip;
                b.port   = bk->lis.port;
                b.addrs  = {bk->index};
            }
            else {
                b.dns      = true;
                b.flags    = "";  // the header's address is a matter of its own
                b.host     = "host" + std::to_string(i) + ".example";
                b.resolves = !c.chance(1, 4);
                b.port     = 5672;
                if (b.resolves) {
                    std::vector<std::pair<std::string, int>> ans;
                    std::size_t                              na = c.below(4);
                    for (std::size_t k = 0; k < na; ++k) {
                        std::string ip = "127.0.0." + std::to_string(1 + c.below(9));
                        if (v6Works() && c.chance(1, 3))
                            ip = "::1";
                        auto *bk = w.addBroker(ip, c.chance(2, 3));
                        ans.emplace_back(ip, bk->lis.port);
                        b.addrs.push_back(bk->index);
                    }
                    w.dns[b.host] = ans;
                }
                c.label("dns backend");
            }
            for (int a : b.addrs) {
                w.brokers[a]->expectProxy = !b.flags.empty();
                // ways of being unreachable other than a refusal
                if (w.brokers[a]->refusing && c.chance(1, 3)) {
                    static const int ways[] = {EHOSTUNREACH, ETIMEDOUT, ENETUNREACH, ECONNRESET, EACCES, ECONNABORTED,
                                               sysnet::PEER_GONE, sysnet::LOCAL_GONE, sysnet::OPTIONS_FAIL};
                    int              way    = ways[c.below(9)];
                    sysnet::failConnect(w.brokers[a]->lis.port, way);
                    w.note("connecting to port ", w.brokers[a]->lis.port, " fails with ", way);
                    c.label("other connect failure");
                }
            }
            w.ctl(std::string("BACKEND ADD") + (b.dns ? "_DNS " : " ") + b.name + " " + b.dc + " " + b.host + " " + std::to_string(b.port) + b.flags);
            bs.push_back(b);
        }
        // command order varies
        bool        part   = c.flip();
        std::string local  = c.pick(dcs);
        bool        before = c.flip();
        std::string add    = "FARM ADD f round-robin";
        std::vector<std::size_t> order;
        for (std::size_t i = 0; i < n; ++i)
            order.insert(order.begin() + c.below(order.size() + 1), i);
        for (auto i : order)
            add += " " + bs[i].name;
        if (before)
            w.ctl("DATACENTER SET " + local);
        else if (c.flip())
            w.ctl("DATACENTER SET " + c.pick(dcs));
        w.ctl(add);
        if (part) {
            for (std::size_t k = 0, t = 1 + c.below(2); k < t; ++k)
                w.ctl("FARM PARTITION f datacenter-affinity");
            c.label("partitioned");
        }
        if (!before)
            w.ctl("DATACENTER SET " + local);
        c.flip() ? w.ctl("MAP DEFAULT f") : w.ctl("MAP FARM v f");
        auto level = [&](const FB &b) { return part && b.dc == local ? 0 : part ? 1 : 0; };
        int  port  = w.listen();
        std::size_t rounds = 1 + c.size(0, 4);
        for (std::size_t r = 0; r < rounds; ++r) {
            w.lookups.clear();
            std::size_t before = w.brokerConnCount();
            LoginSpec   sp     = genLogin(c, "v", false);
            auto        cl     = w.login(port, sp);
            w.note("login -> ", outcomeOf(*cl));
            // the order in which backends were tried
            std::vector<const FB *> tried;
            for (auto &l : w.lookups) {
                const FB *f = nullptr;
                for (auto &b : bs)
                    if (b.host == l.first && std::to_string(b.port) == l.second)
                        f = &b;
                c.check(f != nullptr, "a lookup of ", l.first, ":", l.second, " which no backend of the farm has");
                tried.push_back(f);
            }
            std::string seq;
            for (auto *f : tried)
                seq += f->name + " ";
            w.note("tried: ", seq);
            std::set<const FB *> seen;
            int                  lvl = 0;
            for (auto *f : tried) {
                c.check(seen.insert(f).second, "backend ", f->name, " was tried twice: ", seq);
                c.check(level(*f) >= lvl, "backend ", f->name, " of a higher-priority partition was tried after a lower one: ", seq);
                lvl = level(*f);
            }
            if (tried.size() > 1)
                c.nontrivial();
            int best = 99;
            for (auto &b : bs)
                if (b.reachable(w))
                    best = std::min(best, level(b));
            if (best == 99) {
                c.label("none reachable");
                w.until([&] { return cl->ended(); }, 3);
                c.check(!cl->isOpen && cl->ended(), "with no backend reachable the client is left ", outcomeOf(*cl));
                c.check(seen.size() == n, "only ", seen.size(), " of ", n, " backends were tried before giving up: ", seq);
                c.check(w.brokerConnCount() == before, "harness: a refusing broker accepted");
            }
            else {
                c.label("reachable");
                c.check(cl->isOpen, "a backend is reachable but the client was refused: ", outcomeOf(*cl), " tried ", seq);
                auto br = w.brokerOf(*cl);
                c.check((bool)br, "no broker has the client's connection");
                c.check(w.brokerConnCount() == before + 1, "more than one broker was connected to");
                const FB *at = nullptr;
                std::size_t idx = 0;
                for (auto &b : bs)
                    for (std::size_t k = 0; k < b.addrs.size(); ++k)
                        if (b.addrs[k] == br->backend) {
                            at  = &b;
                            idx = k;
                        }
                c.check(at != nullptr, "connected to a broker outside the farm");
                c.check(level(*at) == best, "connected to a lower-priority partition although a higher one is reachable");
                for (std::size_t k = 0; k < idx; ++k)
                    c.check(w.brokers[at->addrs[k]]->refusing, "an earlier resolved address of the backend is reachable but was skipped");
                c.check(!tried.empty() && tried.back() == at, "the session is on ", at->name, " but the last backend tried was ", seq);
                for (std::size_t k = 0; k + 1 < tried.size(); ++k)
                    c.check(!tried[k]->reachable(w), "reachable backend ", tried[k]->name, " was passed over");
                // nothing of the failed attempts shows
                c.check(cl->order == "10,30,41" && !cl->bad, "the client saw ", cl->order);
                c.check(br->order == "11,31,40" && !br->bad, "the broker saw ", br->order);
                c.check(br->proxyLine.empty() == at->flags.empty(), "PROXY line ", pbt::show(br->proxyLine));
                std::string hostv;
                for (auto &f : br->so.props)
                    if (f.first == "amqpprox_host")
                        hostv = f.second.raw;
                std::string want = ":" + std::to_string(br->remotePort());
                c.check(hostv.size() > want.size() && hostv.substr(hostv.size() - want.size()) == want, "amqpprox_host ", hostv,
                        " does not name the connection's port ", want);
                Sess s;
                s.cl = cl;
                s.br = br;
                probe(w, s, "a session after failover");
                cl->close();
            }
            // let the resolver's cache expire
            w.advance(3000, 500);
        }
    });
}

PBT_TARGET(failover_any,
           "a farm of 1-7 backends (static, DNS with 0-3 addresses of mixed families, unresolvable), any subset refusing, with or "
           "without partitions; 1-5 logins. Non-trivial: a login for which more than one backend was tried.")
{
    failoverHistory(c, false);
}
PBT_TARGET(partition_order,
           "a farm of 1-7 refusing backends configured in any command order; the sequence tried must be each member exactly once, "
           "own datacenter first. Non-trivial: more than one member.")
{
    failoverHistory(c, true);
}

// ------------------------------------------------------------------ fairness
PBT_TARGET(fair_any,
           "a farm of 1-7 accepting backends, optional partitioning, several vhosts; up to 40 consecutive connections after an "
           "optional phase with some backends refusing; every window of n connections must hit all n backends of the top partition. "
           "Non-trivial: at least two backends and at least 2n connections.")
{
    World::run(c, {}, [&](World &w) {
        std::size_t n    = 1 + c.below(7);
        bool        part = c.chance(1, 3);
        w.ctl("DATACENTER SET here");
        std::set<int>    top;
        std::string      add = "FARM ADD f round-robin";
        std::vector<int> all;
        bool             hasNear = false;
        for (std::size_t i = 0; i < n; ++i) {
            bool near = c.chance(2, 3);
            hasNear |= near;
            auto *b = w.addBackend("b" + std::to_string(i), near ? "here" : "there", "", "127.0.0.1", false);
            add += " b" + std::to_string(i);
            if (near)
                top.insert(b->index);
            all.push_back(b->index);
        }
        w.ctl(add);
        if (part)
            w.ctl("FARM PARTITION f datacenter-affinity");
        if (!part || !hasNear)
            top = std::set<int>(all.begin(), all.end());
        w.ctl("MAP FARM v1 f");
        w.ctl("MAP FARM v2 f");
        w.ctl("MAP DEFAULT f");
        int  port    = w.listen();
        auto connect = [&] {
            auto cl = w.login(port, plainLogin(c.oneof<std::string>({"v1", "v2", "v3"})));
            c.check(cl->isOpen, "login did not complete: ", outcomeOf(*cl));
            auto br = w.brokerOf(*cl);
            c.check((bool)br, "no broker has the client's connection");
            int b = br->backend;
            if (c.chance(2, 3)) {
                cl->close();
                w.settle(2);
            }
            return b;
        };
        if (n > 1 && c.chance(1, 3)) {
            // a phase with some of the brokers refusing
            std::set<int> down;
            for (int b : all)
                if (c.flip() && down.size() + 1 < n)
                    down.insert(b);
            for (int b : down)
                w.brokers[b]->setRefusing(true);
            std::size_t k = c.below(6);
            for (std::size_t i = 0; i < k; ++i)
                c.check(!down.count(connect()), "harness: connected to a refusing broker");
            for (int b : down)
                w.brokers[b]->setRefusing(false);
            if (k && !down.empty())
                c.label("after refusals");
        }
        std::size_t      m = top.size();
        std::size_t      k = std::min<std::size_t>(40, m + c.below(3 * m + 2));
        std::vector<int> seq;
        std::string      s;
        for (std::size_t i = 0; i < k; ++i) {
            seq.push_back(connect());
            s += std::to_string(seq.back()) + " ";
            c.check(top.count(seq.back()), "connected outside the highest-priority partition");
            if (seq.size() >= m) {
                std::set<int> win(seq.end() - m, seq.end());
                c.check(win.size() == m, "uneven: ", m, " consecutive connections over ", m, " backends went to only ", win.size(), ": ", s);
            }
        }
        w.note("went to ", s);
        if (m > 1 && k >= 2 * m)
            c.nontrivial();
        c.label("backends " + std::to_string(m));
    });
}

// ---------------------------------------------------------------- fresh names
PBT_TARGET(dnsfresh_any,
           "a vhost on a DNS-named backend whose name moves between brokers, fails or has several addresses while time passes; every "
           "login must land where the name pointed within the last cache period, and names must not be looked up more often than the "
           "cache allows. Non-trivial: the name moved and was looked up at least twice.")
{
    World::run(c, {}, [&](World &w) {
        std::size_t nb = 2 + c.below(2);
        for (std::size_t i = 0; i < nb; ++i)
            w.addBroker("127.0.0." + std::to_string(1 + i));
        for (std::size_t i = 0; i < 2; ++i)
            w.ctl("BACKEND ADD_DNS d" + std::to_string(i) + " dc n" + std::to_string(i) + ".dns " + std::to_string(7000 + i));
        w.ctl("MAP BACKEND v0 d0");
        w.ctl("MAP BACKEND v1 d1");
        int port = w.listen();
        // name -> (from when, broker or -1)
        std::vector<std::vector<std::pair<int64_t, int>>> hist(2);
        auto                                              point = [&](int n, int b) {
            std::string name = "n" + std::to_string(n) + ".dns";
            if (b < 0)
                w.dns.erase(name);
            else
                w.dns[name] = {{w.brokers[b]->lis.ip, w.brokers[b]->lis.port}};
            hist[n].push_back({vclock::nowMs(), b});
            w.note(name, " now ", b < 0 ? std::string("fails") : "points to broker " + std::to_string(b));
        };
        point(0, 0);
        point(1, (int)c.below(nb));
        std::size_t moves = 0, logins = 0;
        std::map<std::string, std::size_t> good;  // lookups that succeeded
        std::size_t                        seen = w.lookups.size();
        int64_t                            began = vclock::nowMs();
        std::size_t                        steps = 4 + c.below(24);
        for (std::size_t s = 0; s < steps; ++s) {
            int n = (int)c.below(2);
            switch (c.weighted({5, 3, 4})) {
            case 0: {
                auto    cl  = w.login(port, plainLogin("v" + std::to_string(n)));
                int64_t now = vclock::nowMs();
                ++logins;
                std::set<int> ok;  // where the name pointed in the last period
                for (std::size_t i = 0; i < hist[n].size(); ++i) {
                    int64_t until = i + 1 < hist[n].size() ? hist[n][i + 1].first : now;
                    if (until >= now - 1150)
                        ok.insert(hist[n][i].second);
                }
                for (; seen < w.lookups.size(); ++seen)
                    good[w.lookups[seen].first] += w.dns.count(w.lookups[seen].first);
                if (cl->isOpen) {
                    auto br = w.brokerOf(*cl);
                    c.check((bool)br, "no broker has the client's connection");
                    c.check(ok.count(br->backend), "a login for n", n, ".dns landed on broker ", br->backend, ", where the name has not pointed for more than a cache period");
                }
                else
                    c.check(ok.count(-1), "a login over a name that resolves did not complete: ", outcomeOf(*cl));
                cl->close();
                w.settle(2);
                break;
            }
            case 1:
                point(n, (int)c.below(nb));
                if (c.chance(1, 4))
                    point(n, -1);
                ++moves;
                break;
            default: {
                int64_t ms = c.oneof<int64_t>({10, 400, 990, 1000, 1010, 2500});
                w.note("advance ", ms);
                w.advance(ms, 100);
                break;
            }
            }
        }
        // successful answers are kept for the rest of the period
        std::size_t most = (std::size_t)((vclock::nowMs() - began) / 1000) + 2;
        for (auto &g : good)
            c.check(g.second <= most, g.first, " was looked up ", g.second, " times in ", vclock::nowMs() - began, " ms");
        if (moves && w.lookups.size() >= 2 && logins >= 2)
            c.nontrivial();
    });
}
