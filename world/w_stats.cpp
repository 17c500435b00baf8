#include "json.h"
#include "scen.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace {
const std::vector<std::string> DELTAS = {"framesReceived", "framesSent", "bytesReceived", "bytesSent", "packetsReceived", "packetsSent"};
const std::vector<std::string> REMOVED = {"removedConnectionGraceful", "removedConnectionBrokerSnapped", "removedConnectionClientSnapped"};
const std::vector<std::string> GAUGES = {"activeConnectionCount", "pausedConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount"};

// a control connection that stays open
std::shared_ptr<Peer> stream(World &w, const std::string &cmd)
{
    auto p = std::make_shared<Peer>();
    p->fd  = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a = {};
    a.sun_family  = AF_UNIX;
    strncpy(a.sun_path, w.sock.c_str(), sizeof(a.sun_path) - 1);
    if (::connect(p->fd, (sockaddr *)&a, sizeof a))
        w.c.fail("control socket refused the connection");
    fcntl(p->fd, F_SETFL, O_NONBLOCK);
    p->send(cmd + "\n");
    w.others.push_back(p);
    w.settle(3);
    return p;
}

struct S {
    Sess        s;
    std::string vhost, source, backend;
    bool        open = false, gone = false, held = false, paused = false, busy = false;
    std::string cls;  // how it ended
    std::size_t goneAt = 0;  // snapshots seen by then
};

using Tot = std::map<std::string, std::map<std::string, uint64_t>>;  // entity -> metric -> total
}

PBT_TARGET(stats_any,
           "up to 26 steps of logins (also unfinished and held ones) over 3 vhosts, 3 sources and 2 brokers, traffic, ends of every kind, time, "
           "pauses and per-source switching, with the JSON statistics stream read throughout; every snapshot's parts must add up to its overall "
           "figures and the accumulated figures equal the model's. Non-trivial: sessions ended and traffic was relayed.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.addBackend("b1");
        std::vector<std::string> vs = {"v0", "v1", "v2"};
        w.ctl("MAP BACKEND v0 b0");
        w.ctl("MAP BACKEND v1 b1");
        w.ctl("MAP BACKEND v2 b0");
        int                    port = w.listen();
        std::vector<S>         ss;
        std::set<std::string>  paused;
        auto                   st = stream(w, "STAT LISTEN json");
        std::size_t            used = 0, snaps = 0;
        bool                   perSource = true, sourceSure = true, everOff = false;
        Tot                    vh, be, so, ov;
        js::Value              last;
        std::size_t            endings = 0, moved = 0;
        uint64_t               limited = 0, denied = 0, sawLimited = 0, sawDenied = 0;
        int                    hp = w.startHttp();
        w.http = [](const HttpReq &) {
            HttpAction a;
            a.bytes = "HTTP/1.1 500 No\r\nContent-Length: 0\r\n\r\n";
            return a;
        };

        auto absorb = [&]() {
            while (true) {
                auto e = st->rx.find('\n', used);
                if (e == std::string::npos)
                    break;
                std::string line = st->rx.substr(used, e - used);
                used             = e + 1;
                js::Value  v;
                js::Parser p(line);
                c.check(p.whole(v), "a statistics snapshot is not JSON: ", p.err, ": ", pbt::show(line, 300));
                ++snaps;
                last = v;
                for (const char *part : {"overall", "vhosts", "backends", "sources"})
                    c.check(v.has(part), "a snapshot has no ", part);
                auto add = [&](Tot &t, const std::string &k, const js::Value &x) {
                    for (auto *names : {&DELTAS, &REMOVED, &GAUGES})
                        for (auto &n : *names) {
                            c.check(x.at(n).kind == 'i', n, " is missing for ", k);
                            c.check(x.u(n) < 1ull << 60, n, " of ", k, " went backwards: ", x.u(n));
                            if (names != &GAUGES)
                                t[k][n] += x.u(n);
                        }
                };
                add(ov, "overall", v.at("overall"));
                sawLimited += v.at("overall").u("limitedConnectionCount");
                sawDenied += v.at("overall").u("authDeniedConnectionCount");
                std::vector<std::pair<const char *, Tot *>> parts = {{"vhosts", &vh}, {"backends", &be}};
                if (perSource) {
                    if (sourceSure)
                        parts.push_back({"sources", &so});
                    else
                        // the first interval covers at most what the sessions that were still around carried
                        for (auto &e2 : v.at("sources").o) {
                            uint64_t most = 0;
                            for (auto &x : ss)
                                if (x.source == e2.first && (!x.gone || x.goneAt + 2 >= snaps))
                                    most += x.s.up.whole.size() + 150000 * x.busy;
                            c.check(e2.second.u("bytesReceived") <= most, "after switching per-source figures on, source ", e2.first, " reports ",
                                    e2.second.u("bytesReceived"), " bytes received, its sessions had ", most);
                            c.label("first snapshot after switching on");
                        }
                    sourceSure = true;
                }
                else
                    c.check(v.at("sources").o.empty(), "per-source figures although switched off");
                for (auto &p2 : parts) {
                    for (auto &e2 : v.at(p2.first).o)
                        add(*p2.second, e2.first, e2.second);
                    for (auto *names : {&DELTAS, &REMOVED, &GAUGES})
                        for (auto &n : *names) {
                            uint64_t sum = 0;
                            for (auto &e2 : v.at(p2.first).o)
                                sum += e2.second.u(n);
                            c.check(sum == v.at("overall").u(n), n, " of the ", p2.first, " adds up to ", sum, " but overall is ", v.at("overall").u(n));
                        }
                }
            }
        };
        auto quiesce = [&]() {
            std::vector<Sess> live;
            for (auto &x : ss)
                if (x.open && !x.gone && !x.paused)
                    live.push_back(x.s);
            checkFlows(w, live, "traffic");
            for (auto &x : ss)
                x.busy = false;
        };
        auto compare = [&](const char *what, Tot &got, const std::function<std::string(S &)> &key) {
            Tot want;
            for (auto &x : ss) {
                std::string k = key(x);
                auto       &m = want[k];
                if (x.open) {
                    m["framesReceived"] += x.s.up.frames;
                    m["bytesReceived"] += x.s.up.whole.size();
                    m["framesSent"] += x.s.down.frames + 1;
                    m["bytesSent"] += x.s.down.whole.size() + x.s.cl->openOkFrame.size();
                }
                if (x.gone)
                    m[x.cls] += 1;
            }
            for (auto &k : want) {
                for (auto *names : {&DELTAS, &REMOVED})
                    for (auto &n : *names)
                        if (n.rfind("packets", 0) != 0)
                            c.check(got[k.first][n] == k.second[n], what, " '", k.first, "': ", n, " reported ", got[k.first][n], " in total instead of ",
                                    k.second[n]);
                c.check((got[k.first]["packetsReceived"] > 0) == (k.second["bytesReceived"] > 0), what, " '", k.first, "': packetsReceived reported ",
                        got[k.first]["packetsReceived"], " for ", k.second["bytesReceived"], " bytes");
                c.check(got[k.first]["packetsReceived"] <= k.second["bytesReceived"] && got[k.first]["packetsSent"] <= k.second["bytesSent"],
                        "more packets than bytes");
            }
            for (auto &k : got)
                if (!want.count(k.first))
                    for (auto &m : k.second)
                        if (m.second)
                            c.fail(std::string("figures for the unknown ") + what + " '" + k.first + "'");
        };
        auto check = [&](bool flush) {
            quiesce();
            if (flush) {
                // the ends and the traffic so far are collected, then an idle interval
                w.advance(1000);
                w.advance(1000);
                absorb();
                std::size_t before = snaps;
                w.advance(1000);
                absorb();
                c.check(snaps == before + 1, "one second brought ", snaps - before, " snapshots");
                uint64_t act = 0, pau = 0;
                for (auto &x : ss)
                    if (!x.gone) {
                        ++act;
                        pau += x.paused;
                    }
                auto &o = last.at("overall");
                c.check(o.u("activeConnectionCount") == act, "activeConnectionCount ", o.u("activeConnectionCount"), " instead of ", act);
                c.check(o.u("pausedConnectionCount") == pau, "pausedConnectionCount ", o.u("pausedConnectionCount"), " instead of ", pau);
                for (auto *names : {&DELTAS, &REMOVED})
                    for (auto &n : *names)
                        c.check(o.u(n) == 0, n, " is ", o.u(n), " for an idle interval");
                compare("vhost", vh, [](S &x) { return x.vhost; });
                compare("backend", be, [](S &x) { return x.backend; });
                if (!everOff)
                    compare("source", so, [](S &x) { return x.source; });
                compare("overall", ov, [](S &) { return std::string("overall"); });
                for (auto &e : last.at("vhosts").o) {
                    uint64_t n = 0;
                    for (auto &x : ss)
                        n += !x.gone && x.vhost == e.first;
                    c.check(e.second.u("activeConnectionCount") == n, "vhost '", e.first, "' has activeConnectionCount ",
                            e.second.u("activeConnectionCount"), " instead of ", n);
                }
                // a limited client stays for a while, so that it may be seen twice
                c.check(sawLimited >= limited && sawLimited <= 2 * limited, "limited connections were reported ", sawLimited, " times instead of ", limited);
                c.check(sawDenied == denied, "denied connections were reported ", sawDenied, " times instead of ", denied);
                c.label("totals compared");
            }
            // the per-session figures
            for (auto &l : lines(w.ctl("CONN"))) {
                std::map<std::string, std::string> f;
                for (auto &t : words(l))
                    if (t.find('=') != std::string::npos)
                        f[t.substr(0, t.find('='))] = t.substr(t.find('=') + 1);
                for (auto &x : ss)
                    if (x.open && !x.gone && f["ingressRemote"] == x.s.cl->srcIp + ":" + std::to_string(x.s.cl->srcPort)) {
                        c.check(f["inBytes"] == std::to_string(x.s.up.whole.size()) && f["inFrames"] == std::to_string(x.s.up.frames),
                                "CONN reports inBytes=", f["inBytes"], " inFrames=", f["inFrames"], " instead of ", x.s.up.whole.size(), " and ",
                                x.s.up.frames);
                        std::size_t ob = x.s.down.whole.size() + x.s.cl->openOkFrame.size();
                        c.check(f["outBytes"] == std::to_string(ob) && f["outFrames"] == std::to_string(x.s.down.frames + 1), "CONN reports outBytes=",
                                f["outBytes"], " outFrames=", f["outFrames"], " instead of ", ob, " and ", x.s.down.frames + 1);
                    }
            }
        };
        auto endOf = [&](S &x, const char *cls) {
            w.until([&] { return (!x.s.cl->open() || x.s.cl->ended()) && (!x.s.br || !x.s.br->open() || x.s.br->ended()); }, 3);
            x.gone   = true;
            x.goneAt = snaps;
            x.cls  = cls;
            ++endings;
        };
        std::size_t steps = 4 + c.size(0, 22);
        for (std::size_t k = 0; k < steps; ++k) {
            S *px = nullptr;
            for (std::size_t i = 0, at = c.below(ss.size() + 1); i < ss.size() && !px; ++i)
                if (!ss[(at + i) % ss.size()].gone)
                    px = &ss[(at + i) % ss.size()];
            std::size_t kind = c.weighted({5, 6, 6, 2, 2, 2, 1, 2, 1, 1, 2, 1});
            if (!px && kind != 0 && kind != 2 && kind < 7)
                kind = 0;
            switch (kind) {
            case 0: {
                S x;
                x.vhost  = c.pick(vs);
                x.source = "127.0.0." + std::to_string(1 + c.below(3));
                if (paused.count(x.vhost)) {
                    LoginSpec ls = plainLogin(x.vhost);
                    x.s.cl       = w.connect(port, ls, x.source);
                    x.s.cl->begin();
                    w.until([&] { return x.s.cl->sentTuneOk && x.s.cl->allSent(); }, 3);
                    w.settle(3);
                    x.held = x.paused = true;
                    x.backend         = "0.0.0.0_0";
                }
                else if (c.chance(1, 6)) {
                    x.s.cl = w.connect(port, plainLogin(x.vhost), x.source);
                    if (c.flip())
                        x.s.cl->begin(), x.s.cl->automatic = false;
                    w.settle(3);
                    x.vhost   = "";
                    x.backend = "0.0.0.0_0";
                }
                else {
                    x.s       = openSession(w, port, plainLogin(x.vhost), false, x.source);
                    x.open    = true;
                    x.backend = "127.0.0.1_" + std::to_string(w.brokers[x.s.br->backend]->lis.port);
                    // what was there at the login is the OpenOk
                }
                ss.push_back(x);
                break;
            }
            case 1:
                if (px->open && !px->paused) {
                    sendFrames(w, px->s, c.flip(), 1 + c.size(0, 4), genCutter(c), 60000, 2000);
                    ++moved;
                    if (c.flip())
                        px->busy = true;
                    else
                        quiesce();
                    for (std::size_t i = 0, n = c.below(4); i < n; ++i)
                        w.round();
                }
                break;
            case 2: w.advance(1 + c.below(2500), c.flip() ? 0 : 400); break;
            case 3:
                quiesce();
                c.flip() ? px->s.cl->close() : px->s.cl->reset();
                endOf(*px, "removedConnectionClientSnapped");
                break;
            case 4:
                if (!px->open)
                    break;
                quiesce();
                c.flip() ? px->s.br->close() : px->s.br->reset();
                endOf(*px, "removedConnectionBrokerSnapped");
                break;
            case 5: {
                quiesce();
                std::string id;
                for (auto &l : lines(w.ctl("CONN")))
                    if (contains(l, "ingressRemote=" + px->s.cl->srcIp + ":" + std::to_string(px->s.cl->srcPort) + " "))
                        id = words(l)[0].substr(3);
                c.check(!id.empty(), "CONN does not list a live client");
                w.ctl("SESSION " + id + " FORCE_DISCONNECT");
                endOf(*px, "removedConnectionGraceful");
                break;
            }
            case 6: {
                quiesce();
                std::string v = c.pick(vs);
                w.advance(1000);  // sessions ended before are out of its reach
                w.ctl("VHOST FORCE_DISCONNECT " + v);
                for (auto &x : ss)
                    if (!x.gone && x.vhost == v)
                        endOf(x, "removedConnectionGraceful");
                break;
            }
            case 7: {
                std::string v = c.pick(vs);
                quiesce();
                if (!paused.count(v)) {
                    w.ctl("VHOST PAUSE " + v);
                    paused.insert(v);
                    for (auto &x : ss)
                        if (!x.gone && x.vhost == v)
                            x.paused = true;
                }
                else {
                    w.advance(1000);
                    w.ctl("VHOST UNPAUSE " + v);
                    paused.erase(v);
                    for (auto &x : ss)
                        if (!x.gone && x.vhost == v) {
                            if (x.open)
                                endOf(x, "removedConnectionGraceful");
                            else {
                                w.until([&] { return x.s.cl->isOpen || x.s.cl->ended(); }, 3);
                                c.check(x.s.cl->isOpen, "a held client did not complete its login");
                                x.s.br = w.brokerOf(*x.s.cl);
                                c.check(!!x.s.br, "no broker connection for an open client");
                                x.s.up.base   = x.s.br->data.size();
                                x.s.down.base = x.s.cl->data.size();
                                x.open        = true;
                                x.held = x.paused = false;
                                x.backend = "127.0.0.1_" + std::to_string(w.brokers[x.s.br->backend]->lis.port);
                            }
                        }
                }
                break;
            }
            case 8:
                absorb();
                w.ctl(perSource ? "STAT DISABLE per-source" : "STAT ENABLE per-source");
                absorb();
                perSource  = !perSource;
                sourceSure = false;
                everOff    = true;
                c.label("per-source switched");
                break;
            case 9: check(true); break;
            case 10: check(false); break;
            case 11: {  // turned away by a limit or by the auth service
                S    x;
                bool lim = c.flip();
                x.vhost  = c.pick(vs);
                if (paused.count(x.vhost))
                    break;
                x.source  = "127.0.0." + std::to_string(1 + c.below(3));
                x.backend = "0.0.0.0_0";
                if (lim)
                    w.ctl("LIMIT CONN_RATE VHOST " + x.vhost + " 0");
                else
                    w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /x");
                x.s.cl = w.connect(port, plainLogin(x.vhost), x.source);
                x.s.cl->begin();
                w.until([&] { return x.s.cl->ended() || (lim && x.s.cl->sentTuneOk && x.s.cl->allSent()); }, 3);
                w.settle(2);
                if (lim)
                    w.advance(800, c.flip() ? 0 : 200);
                w.until([&] { return x.s.cl->ended(); }, 3);
                c.check(x.s.cl->ended() && !x.s.cl->isOpen, "a client was not turned away");
                (lim ? limited : denied) += 1;
                endOf(x, "removedConnectionGraceful");
                ss.push_back(x);
                w.ctl(lim ? "LIMIT DISABLE CONN_RATE VHOST " + x.vhost : "AUTH ALWAYS_ALLOW");
                c.label(lim ? "limited" : "denied");
                break;
            }
            }
            absorb();
        }
        check(true);
        c.check(!st->ended(), "the statistics stream ended");
        if (endings && moved)
            c.nontrivial();
    });
}

PBT_TARGET(statout_any,
           "several statistics streams at once (all, overall, process, buffer pool, each entity, JSON and human) and a StatsD receiver over generated "
           "traffic; at every interval each shows exactly the part of the full snapshot it asked for. Non-trivial: traffic in a snapshot and at least "
           "3 streams.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.addBackend("b1");
        std::vector<std::string> vs = {"v0", "V0", "a/b"};
        w.ctl("MAP BACKEND v0 b0");
        w.ctl("MAP BACKEND V0 b1");
        w.ctl("MAP BACKEND a/b b0");
        int                       port = w.listen();
        std::vector<std::string>  srcs = {"127.0.0.1", "127.0.0.2"};
        struct Str {
            std::shared_ptr<Peer> p;
            std::string           kind, value;
            bool                  human;
            std::size_t           from, used = 0, seen = 0;
        };
        auto             all  = stream(w, "STAT LISTEN json all");
        std::size_t      used = 0, snaps = 0, busy = 0;
        std::vector<Str> strs;
        std::vector<Sess> ss;
        // the StatsD receiver
        int         fd   = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_in a    = {};
        a.sin_family      = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (bind(fd, (sockaddr *)&a, sizeof a)) {
            ::close(fd);
            c.discard();
        }
        struct Closer {
            int fd;
            ~Closer() { ::close(fd); }
        } closer{fd};
        int big = 4000000;
        setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        socklen_t al = sizeof a;
        getsockname(fd, (sockaddr *)&a, &al);
        std::size_t sending = 0;  // how many times
        auto        statsd  = [&] {
            std::vector<std::string> r;
            char                     b[70000];
            ssize_t                  n;
            while ((n = recv(fd, b, sizeof b, 0)) >= 0)
                r.emplace_back(b, n);
            return r;
        };
        auto name = [&](const std::string &kind) -> std::string {
            if (kind == "vhost")
                return c.oneof<std::string>({"v0", "V0", "a/b", "v1"});
            if (kind == "source")
                return c.oneof<std::string>({"127.0.0.1", "127.0.0.2", "127.0.0.9"});
            return "127.0.0.1_" + std::to_string(w.brokers[c.below(2)]->lis.port);
        };
        auto interval = [&] {
            // to the next snapshot
            std::size_t before = snaps;
            auto        count  = [&] { return (std::size_t)std::count(all->rx.begin(), all->rx.end(), '\n'); };
            for (int i = 0; i < 40 && count() == before; ++i) {
                w.advance(250);
                w.settle(2);
            }
            c.check(count() == before + 1, count() - before, " snapshots in an interval");
            auto        e    = all->rx.find('\n', used);
            std::string line = all->rx.substr(used, e - used);
            used             = e + 1;
            ++snaps;
            js::Value  v;
            js::Parser p(line);
            c.check(p.whole(v), "not JSON: ", p.err);
            if (v.at("overall").u("bytesReceived") && strs.size() >= 3)
                c.nontrivial();
            auto part = [&](const Str &s) -> js::Value {
                if (s.kind == "all")
                    return v;
                if (s.kind == "overall" || s.kind == "process" || s.kind == "bufferpool")
                    return v.at(s.kind);
                auto &m = v.at(s.kind + "s");
                if (m.has(s.value)) {
                    c.label("entity present");
                    return m.at(s.value);
                }
                js::Value z;
                z.kind = 'o';
                return z;
            };
            for (auto &s : strs) {
                c.check(!s.p->ended(), "a stream ended");
                auto e2 = s.p->rx.find('\n', s.used);
                if (s.human && (s.kind == "all")) {
                    c.check(contains(s.p->rx.substr(s.used), "Overall:"), "no human output for an interval");
                    s.used = s.p->rx.size();
                    continue;
                }
                c.check(e2 != std::string::npos, "the stream ", s.kind, "=", s.value, " has no output for an interval");
                std::string l = s.p->rx.substr(s.used, e2 - s.used);
                s.used        = e2 + 1;
                c.check(s.used == s.p->rx.size(), "the stream ", s.kind, "=", s.value, " has more than one output for an interval");
                auto want = part(s);
                if (!s.human) {
                    js::Value  g;
                    js::Parser p2(l);
                    c.check(p2.whole(g), "filtered output is not JSON: ", p2.err);
                    std::function<void(const js::Value &, const js::Value &, const std::string &)> same = [&](const js::Value &x, const js::Value &y, const std::string &at) {
                        c.check(x.kind == y.kind || (y.kind == 'o' && y.o.empty()), "another kind of value at ", at);
                        if (x.kind == 'o') {
                            if (y.o.empty() && (s.kind == "vhost" || s.kind == "source" || s.kind == "backend") && at.empty()) {
                                for (auto &e3 : x.o)
                                    c.check(e3.second.kind == 'i' && x.u(e3.first) == 0, "an unknown ", s.kind, " has ", e3.first);
                                return;
                            }
                            c.check(x.o.size() == y.o.size(), "other entries at ", at);
                            for (auto &e3 : x.o) {
                                c.check(y.has(e3.first), "unexpected ", e3.first);
                                same(e3.second, y.at(e3.first), at + "." + e3.first);
                            }
                        }
                        else
                            c.check(x.i == y.i && x.neg == y.neg, s.kind, "=", s.value, at, " shows ", x.i, " where the snapshot has ", y.i);
                    };
                    same(g, want, "");
                }
                else if (s.kind != "process" && s.kind != "bufferpool") {
                    auto num = [&](const std::string &lab) -> uint64_t {
                        auto p3 = l.find(lab);
                        c.check(p3 != std::string::npos, "no ", lab, " in ", l);
                        return strtoull(l.c_str() + p3 + lab.size(), nullptr, 10);
                    };
                    auto val = [&](const char *n) { return want.has(n) ? want.u(n) : 0; };
                    c.check(num("Paused: ") == val("pausedConnectionCount") && num("Active: ") == val("activeConnectionCount") &&
                                num("Removed(Clean): ") == val("removedConnectionGraceful") && num("Removed(Broker): ") == val("removedConnectionBrokerSnapped") &&
                                num("Removed(Client): ") == val("removedConnectionClientSnapped"),
                            "human ", s.kind, "=", s.value, " shows ", l, " but the snapshot has another");
                    for (int d = 0; d < 2; ++d) {
                        auto               p3 = l.find(d ? "OUT: " : "IN: ");
                        std::istringstream is(l.substr(p3 + (d ? 5 : 4)));
                        double             b;
                        std::string        u1, u2;
                        uint64_t           pk, fr;
                        is >> b >> u1 >> pk >> u2 >> fr;
                        c.check(!!is && pk == val(d ? "packetsSent" : "packetsReceived") && fr == val(d ? "framesSent" : "framesReceived"), "human ", s.kind, "=", s.value,
                                " shows other traffic");
                        double f = u1[0] == 'K' ? 1024.0 : u1[0] == 'M' ? 1048576.0 : u1[0] == 'G' ? 1073741824.0 : 1.0;
                        double bytes = (double)val(d ? "bytesSent" : "bytesReceived");
                        c.check(b * f >= bytes * 0.999 && b * f <= bytes * 1.001 && (f > 1 || u1[0] == 'B'), "human ", s.kind, "=", s.value, " shows ", b, " ", u1, " of traffic, the snapshot has ",
                                bytes);
                    }
                }
            }
            auto dg = statsd();
            if (!sending)
                c.check(dg.empty(), dg.size(), " datagrams although nothing is to be sent");
            else {
                std::map<std::string, std::size_t> have;
                std::size_t                        plain = 0;
                for (auto &d : dg)
                    if (d.find("|d") == std::string::npos) {
                        ++have[d];
                        ++plain;
                    }
                std::size_t want = 0;
                auto        need = [&](const std::string &d) {
                    c.check(have[d] == sending, "the datagram ", pbt::show(d, 200), " was sent ", have[d], " times instead of ", sending);
                    want += sending;
                };
                auto entity = [&](const js::Value &x, const std::string &tags) {
                    for (auto *names : {&DELTAS, &REMOVED, &GAUGES})
                        for (auto &n : *names)
                            need("amqpprox." + n + tags + ":" + std::to_string(x.u(n)) + (names == &GAUGES ? "|g" : "|c"));
                };
                // figures that several entities share may be equal, so only the distinct ones are counted
                entity(v.at("overall"), ",rmqEndpointType=overall");
                for (auto &e3 : v.at("vhosts").o)
                    if (!e3.first.empty())
                        entity(e3.second, ",rmqEndpointType=vhost,rmqVhostName=" + e3.first);
                for (auto &e3 : v.at("sources").o)
                    entity(e3.second, ",rmqEndpointType=sources,rmqEndpointHostname=" + e3.first);
                for (auto &e3 : v.at("backends").o)
                    if (e3.first.find(':') == std::string::npos)
                        entity(e3.second, ",rmqEndpointType=backends,rmqEndpointHostname=" + e3.first);
                c.check(plain >= want, "too few datagrams");
                c.label("datagrams");
            }
        };
        interval();
        std::size_t steps = 2 + c.size(0, 14);
        for (std::size_t i = 0; i < steps; ++i) {
            switch (c.weighted({4, 4, 2, 1, 1, 3, 1})) {
            case 0: {
                Str s;
                s.human = c.flip();
                s.kind  = c.oneof<std::string>({"vhost", "vhost", "backend", "source", "overall", "process", "bufferpool", "all"});
                std::string arg = s.kind;
                if (s.kind == "vhost" || s.kind == "backend" || s.kind == "source") {
                    s.value = name(s.kind);
                    arg     = (c.flip() ? s.kind : s.kind == "vhost" ? "VHOST" : s.kind == "backend" ? "Backend" : "sOURCE") + "=" + s.value;
                }
                s.p = stream(w, std::string("STAT LISTEN ") + (s.human ? "human " : "json ") + arg);
                w.note("stream ", arg, s.human ? " human" : " json");
                strs.push_back(s);
                break;
            }
            case 1:
                if (ss.size() < 6)
                    ss.push_back(openSession(w, port, plainLogin(c.pick(vs)), false, c.pick(srcs)));
                break;
            case 2:
                if (!ss.empty()) {
                    auto k = c.below(ss.size());
                    ss[k].cl->close();
                    w.settle(3);
                    ss.erase(ss.begin() + k);
                }
                break;
            case 3:
                if (!strs.empty()) {
                    auto k = c.below(strs.size());
                    strs[k].p->close();
                    strs.erase(strs.begin() + k);
                }
                break;
            case 4:
                if (sending && c.flip()) {
                    w.ctl("STAT STOP SEND");
                    sending = 0;
                    statsd();
                }
                else if (sending < 2) {
                    w.ctl("STAT SEND 127.0.0.1 " + std::to_string(ntohs(a.sin_port)));
                    ++sending;
                }
                break;
            case 5:
                if (!ss.empty()) {
                    sendFrames(w, ss[c.below(ss.size())], c.flip(), 1 + c.below(4), wholeCutter(), 9000, 300);
                    w.settle(3);
                    ++busy;
                }
                break;
            case 6: w.ctl(c.flip() ? "STAT DISABLE per-source" : "STAT ENABLE per-source"); break;
            }
            if (c.flip())
                interval();
        }
        interval();
    });
}
