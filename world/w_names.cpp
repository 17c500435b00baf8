// P28: how hosts are named once MAPHOSTNAME DNS has been used.
#include "json.h"
#include "scen.h"

#include <fcntl.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace {
struct HookGuard {
    ~HookGuard() { sysRevHook() = nullptr; }
};

// Names an address may be given: the answers its reverse lookup would have
// given at any time since the mapping was set up, its own text where a lookup
// would have failed (or there is no mapping).
struct Names {
    std::map<std::string, std::string>           now;   // address -> name ("": lookup fails)
    std::map<std::string, std::set<std::string>> may;   // since the last MAPHOSTNAME
    bool                                         on = false;
    void                                         set(const std::string &a, const std::string &n)
    {
        now[a] = n;
        may[a].insert(n.empty() ? a : n);
    }
    void epoch()
    {
        on = true;
        may.clear();
        for (auto &e : now)
            may[e.first].insert(e.second.empty() ? e.first : e.second);
    }
    std::set<std::string> of(const std::string &a) const
    {
        auto it = may.find(a);
        if (!on || it == may.end())
            return {a};
        return it->second;
    }
};

std::string show(const std::set<std::string> &s)
{
    std::string r;
    for (auto &x : s)
        r += (r.empty() ? "" : " or ") + x;
    return r;
}
}

PBT_TARGET(names_any,
           "up to 16 steps of logins from 1-4 client addresses to 1-3 brokers (IPv4 and IPv6), MAPHOSTNAME DNS at any point and repeatedly, "
           "changes of the reverse-lookup table (any host name, missing, failing), traffic and ends; names in the broker's view of the client, "
           "in CONN, in the statistics and in authentication requests compared. Non-trivial: a host with a name was shown by it.")
{
    World::run(c, {}, [&](World &w) {
        HookGuard guard;
        Names     names;
        std::map<std::string, int> errors;
        std::size_t asked = 0;
        sysRevHook() = [&](const std::string &a, int *err, std::string *name) {
            ++asked;
            auto it = names.now.find(a);
            if (it == names.now.end())
                *name = a;
            else if (it->second.empty())
                *err = errors[a];
            else
                *name = it->second;
            return true;
        };
        std::size_t nb = 1 + c.below(3), nc = 1 + c.below(4), serial = 0;
        std::vector<std::string> bip, cip;
        for (std::size_t i = 0; i < nb; ++i) {
            bip.push_back(c.chance(1, 4) ? "::1" : "127.0.1." + std::to_string(1 + i));
            w.addBackend("b" + std::to_string(i), "dc1", "", bip.back());
            w.ctl("MAP BACKEND v" + std::to_string(i) + " b" + std::to_string(i));
        }
        for (std::size_t i = 0; i < nc; ++i)
            cip.push_back("127.0.0." + std::to_string(2 + i));
        std::vector<std::string> all = cip;
        all.insert(all.end(), bip.begin(), bip.end());
        all.push_back("127.0.0.1");
        auto rename = [&](const std::string &a) {
            std::string n;
            if (!c.chance(1, 5)) {
                n = c.oneof<std::string>({"host", "db-1", "a", "x.y", "localhost", "10.9.9.9"}) + std::to_string(++serial) +
                    (c.chance(1, 8) ? "." + c.text(c.size(1, 200), "abcdefghijklmnopqrstuvwxyz") : "") + c.oneof<std::string>({"", ".example.com", ".example"});
            }
            errors[a] = c.oneof<int>({EAI_NONAME, EAI_AGAIN, EAI_FAIL});
            names.set(a, n);
            w.note("reverse lookup of ", a, ": ", n.empty() ? "fails" : n.substr(0, 60));
        };
        for (auto &a : all)
            rename(a);
        bool auth = c.chance(1, 3);
        if (auth) {
            w.http = [&](const HttpReq &) {
                HttpAction  a;
                std::string body("\x08\x00\x12\x01r", 5);  // result ALLOW
                a.bytes = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
                return a;
            };
            int hp = w.startHttp();
            w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /t");
            c.label("authentication");
        }
        auto st = std::make_shared<Peer>();
        st->fd  = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un sa = {};
        sa.sun_family  = AF_UNIX;
        strncpy(sa.sun_path, w.sock.c_str(), sizeof(sa.sun_path) - 1);
        if (::connect(st->fd, (sockaddr *)&sa, sizeof sa))
            c.fail("control socket refused the connection");
        fcntl(st->fd, F_SETFL, O_NONBLOCK);
        st->send("STAT LISTEN json\n");
        w.others.push_back(st);
        w.settle(3);

        int port = w.listen();
        struct S {
            Sess        s;
            std::string src, dst;
            bool        over = false;
        };
        std::vector<S> ss;
        auto named = [&](const std::string &a, const std::string &shown) {
            if (names.on && shown != a && names.now[a] == shown) {
                c.nontrivial();
                c.label("shown by name");
            }
        };
        auto checkConn = [&] {
            // an ended session disappears at the next clean-up
            std::map<int, std::map<std::string, std::string>> rows;
            for (auto &l : lines(w.ctl("CONN"))) {
                std::map<std::string, std::string> f;
                for (auto &t : words(l))
                    if (t.find('=') != std::string::npos)
                        f[t.substr(0, t.find('='))] = t.substr(t.find('=') + 1);
                auto &r = f["ingressRemote"];
                auto  k = r.rfind(':');
                if (k != std::string::npos)
                    rows[atoi(r.c_str() + k + 1)] = f;
            }
            for (auto &x : ss) {
                if (x.over)
                    continue;
                c.check(rows.count(x.s.cl->srcPort), "CONN does not list the client at port ", x.s.cl->srcPort);
                auto f   = rows[x.s.cl->srcPort];
                auto cut = [&](const char *k) { return f[k].substr(0, f[k].rfind(':')); };
                auto one = [&](const char *k, const std::string &a, const std::string &shown) {
                    auto ok = names.of(a);
                    c.check(ok.count(shown), "CONN shows ", k, " (", a, ") as ", shown, " instead of ", show(ok));
                    named(a, shown);
                };
                one("ingressRemote", x.src, cut("ingressRemote"));
                one("ingressLocal", "127.0.0.1", f["ingressLocal"]);
                one("egressRemote", x.dst, cut("egressRemote"));
                c.check(f["egressRemote"].substr(f["egressRemote"].rfind(':') + 1) == std::to_string(x.s.br->localPort()),
                        "CONN shows ", f["egressRemote"], " for a broker at port ", x.s.br->localPort());
            }
        };
        std::size_t used = 0;
        auto stats = [&](bool check) {
            for (;;) {
                auto nl = st->rx.find('\n', used);
                if (nl == std::string::npos)
                    break;
                std::string l = st->rx.substr(used, nl - used);
                used          = nl + 1;
                if (l.empty() || !check || st->rx.find('\n', used) != std::string::npos)
                    continue;
                js::Value  v;
                js::Parser ps(l);
                if (!ps.whole(v) || !v.has("sources"))
                    continue;
                // the latest snapshot: sessions alive are counted under their name
                std::map<std::string, std::size_t> src, dst;
                for (auto &e : v.at("sources").o)
                    src[e.first] = e.second.u("activeConnectionCount");
                for (auto &e : v.at("backends").o)
                    dst[e.first] = e.second.u("activeConnectionCount");
                for (auto &x : ss) {
                    if (x.over)
                        continue;
                    std::size_t k = 0, k2 = 0;
                    for (auto &n : names.of(x.src))
                        k += src.count(n) && src[n];
                    for (auto &n : names.of(x.dst))
                        k2 += dst.count(n + "_" + std::to_string(x.s.br->localPort())) && dst[n + "_" + std::to_string(x.s.br->localPort())];
                    c.check(k, "the statistics have no source ", show(names.of(x.src)), " although a client there is connected: ", l.substr(0, 3000));
                    c.check(k2, "the statistics have no backend ", show(names.of(x.dst)), " although a session there is open: ", l.substr(0, 3000));
                }
                c.label("statistics compared");
            }
        };
        for (std::size_t i = 0, n = 1 + c.size(0, 15); i < n; ++i) {
            switch (c.weighted({5, 3, 3, 2, 2, 2})) {
            case 0: {
                S         x;
                auto      b  = c.below(nb);
                LoginSpec sp = plainLogin("v" + std::to_string(b));
                x.src        = cip[c.below(nc)];
                x.dst        = bip[b];
                auto reqs    = w.httpReqs.size();
                w.note("login from ", x.src, " to ", x.dst);
                x.s     = openSession(w, port, sp, false, x.src);
                auto ok = names.of(x.src);
                std::string shown;
                for (auto &f : x.s.br->so.props)
                    if (f.first == "amqpprox_client")
                        shown = f.second.raw;
                auto k = shown.rfind(':');
                c.check(k != std::string::npos && ok.count(shown.substr(0, k)), "the broker was told the client (", x.src, ") is ", shown,
                        " instead of ", show(ok));
                c.check(shown.substr(k + 1) == std::to_string(x.s.cl->srcPort), "the broker was told the client is ", shown);
                named(x.src, shown.substr(0, k));
                if (auth) {
                    c.check(w.httpReqs.size() == reqs + 1, "no authentication request");
                    std::string body = w.httpReqs.back().body;
                    bool        hit  = false;
                    for (auto &nm : ok) {
                        std::string f;
                        // field with the length-delimited name
                        f += nm.size() < 128 ? std::string(1, (char)nm.size()) : std::string() + (char)(nm.size() & 127 | 128) + (char)(nm.size() >> 7);
                        f += nm;
                        hit |= contains(body, f);
                    }
                    c.check(hit, "the authentication request does not name the client ", show(ok), ": ", pbt::show(body));
                    c.label("authentication request compared");
                }
                ss.push_back(x);
                break;
            }
            case 1: {
                w.note("MAPHOSTNAME DNS");
                names.epoch();
                auto r = w.ctl(c.oneof<std::string>({"MAPHOSTNAME DNS", "MAPHOSTNAME dns"}));
                c.check(contains(r, "Hostname mapper set"), "MAPHOSTNAME DNS answered ", pbt::show(r));
                break;
            }
            case 2: rename(all[c.below(all.size())]); break;
            case 3: checkConn(); break;
            case 4: {
                // two collections, so that the last one saw everything
                for (auto &x : ss)
                    if (!x.over)
                        probe(w, x.s, "a session while names change");
                stats(false);
                w.advance(2100, 300);
                w.settle(3);
                stats(true);
                break;
            }
            case 5:
                if (!ss.empty()) {
                    auto &x = ss[c.below(ss.size())];
                    if (!x.over) {
                        x.s.cl->close();
                        x.over = true;
                        w.settle(3);
                    }
                }
                break;
            }
        }
        checkConn();
        for (auto &x : ss)
            if (!x.over)
                probe(w, x.s, "a session at the end");
        if (!names.on)
            c.check(!asked, "reverse lookups although MAPHOSTNAME was never used");
    });
}
