#include "json.h"
#include "scen.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static std::map<std::string, std::vector<std::string>> &sysNames = sysHosts();

namespace {
struct Be {
    std::string dc, host, ip;
    int         port = 0;
    bool        proxy = false, tls = false;
};
struct Lim {
    std::optional<uint64_t>            def;
    std::map<std::string, uint64_t>    per;
    std::optional<uint64_t>            of(const std::string &v) const
    {
        auto i = per.find(v);
        return i != per.end() ? std::optional<uint64_t>(i->second) : def;
    }
};
struct Model {
    std::map<std::string, Be>                                 backends;
    std::map<std::string, std::vector<std::string>>           farms;
    std::map<std::string, std::pair<bool, std::string>>       maps;
    std::set<std::string>                                     paused;
    std::string                                               dc;
    std::string                                               auth;  // "" or url
    Lim                                                       conn, connAlarm, data, dataAlarm;
};
const std::vector<std::string> NAMES  = {"b0", "B0", "b00", "b.1", "b-1", "ADD", "DELETE", "PRINT", "x,y", "(z):"};
const std::vector<std::string> FARMS  = {"f0", "F0", "f00", "b0", "DEFAULT"};
const std::vector<std::string> VHOSTS = {"/", "v0", "V0", "v00", "a/b", "\"q\"", "\xc3\xa9", "DEFAULT", "=>", "VHOST"};
const std::vector<std::string> DCS    = {"dc1", "DC1", "dc2", "x"};

// same letters, any case
std::string anyCase(pbt::Ctx &c, const std::string &s)
{
    std::string r = s;
    switch (c.weighted({4, 1, 1})) {
    case 1: return lower(s);
    case 2:
        for (auto &ch : r)
            ch = c.flip() ? tolower(ch) : toupper(ch);
    }
    return r;
}
std::string sp(pbt::Ctx &c)
{
    return c.weighted({12, 1}) == 0 ? " " : std::string(1 + c.below(3), ' ');
}

// what the printouts say, for comparing before and after
std::string dump(World &w)
{
    std::string r;
    for (const char *q : {"BACKEND PRINT", "FARM PRINT", "MAP PRINT", "DATACENTER PRINT", "AUTH PRINT", "LIMIT PRINT"}) {
        auto ls = lines(w.ctl(q));
        std::sort(ls.begin(), ls.end());
        for (auto &l : ls)
            r += std::string(q) + ": " + l + "\n";
    }
    for (auto &v : VHOSTS)
        r += w.ctl("LIMIT PRINT " + v);
    for (auto &l : lines(w.ctl("VHOST PRINT")))
        if (l.size() > 9 && l.substr(l.size() - 9) == " = PAUSED")
            r += l + "\n";
    return r;
}

void compare(World &w, const Model &m, const char *when)
{
    pbt::Ctx &c = w.c;
    // backends: name (dc): host ip:port [PROXY PROTOCOL V1 ENABLED] [TLS]
    {
        std::multiset<std::string> have, want;
        for (auto &l : lines(w.ctl("BACKEND PRINT")))
            have.insert(l);
        for (auto &b : m.backends)
            want.insert(b.first + " (" + b.second.dc + "): " + b.second.host + " " + b.second.ip + ":" + std::to_string(b.second.port) +
                        (b.second.proxy ? " PROXY PROTOCOL V1 ENABLED" : "") + (b.second.tls ? " TLS" : ""));
        for (auto &x : want)
            c.check(have.count(x) == 1, when, ": BACKEND PRINT lacks ", pbt::show(x, 300));
        c.check(have.size() == want.size(), when, ": BACKEND PRINT has ", have.size(), " lines instead of ", want.size());
    }
    {
        std::map<std::string, std::multiset<std::string>> have;
        std::size_t                                       n = 0;
        for (auto &l : lines(w.ctl("FARM PRINT"))) {
            auto p = l.find(": ");
            c.check(p != std::string::npos, "cannot read FARM PRINT line ", pbt::show(l, 200));
            auto ws = words(l.substr(p + 2));
            have[l.substr(0, p)] = {ws.begin(), ws.end()};
            ++n;
        }
        c.check(n == m.farms.size(), when, ": FARM PRINT has ", n, " lines instead of ", m.farms.size());
        for (auto &f : m.farms) {
            c.check(have.count(f.first), when, ": FARM PRINT lacks ", f.first);
            c.check(have[f.first] == std::multiset<std::string>(f.second.begin(), f.second.end()), when, ": FARM PRINT shows other members for ", f.first);
        }
    }
    {
        std::multiset<std::string> have, want;
        for (auto &l : lines(w.ctl("MAP PRINT")))
            have.insert(l);
        for (auto &e : m.maps)
            want.insert("\"" + e.first + "\" => " + (e.second.first ? "Farm:" : "Backend:") + e.second.second);
        for (auto &x : want)
            c.check(have.count(x) == 1, when, ": MAP PRINT lacks ", pbt::show(x, 300));
        c.check(have.size() == want.size(), when, ": MAP PRINT has ", have.size(), " lines instead of ", want.size());
    }
    {
        std::set<std::string> have;
        for (auto &l : lines(w.ctl("VHOST PRINT"))) {
            auto p = l.rfind(" = ");
            c.check(p != std::string::npos, "cannot read VHOST PRINT line ", pbt::show(l, 200));
            std::string st = l.substr(p + 3);
            c.check(st == "PAUSED" || st == "UNPAUSED", "cannot read VHOST PRINT line ", pbt::show(l, 200));
            if (st == "PAUSED")
                have.insert(l.substr(0, p));
        }
        c.check(have == m.paused, when, ": VHOST PRINT shows ", have.size(), " paused vhosts, ", m.paused.size(), " are paused, or others");
    }
    {
        auto d = w.ctl("DATACENTER PRINT");
        c.check(d == m.dc + "\n", when, ": DATACENTER PRINT shows ", pbt::show(d, 100), " instead of ", m.dc);
    }
    {
        auto a = w.ctl("AUTH PRINT");
        if (m.auth.empty())
            c.check(!contains(a, "http://"), when, ": AUTH PRINT names a service although none is used: ", a);
        else
            c.check(contains(a, " " + m.auth + "\n") || contains(a, " " + m.auth + " "), when, ": AUTH PRINT does not show ", m.auth, ": ", a);
    }
    // limits: kind, number
    auto read = [&](const std::string &out) {
        std::map<std::string, std::vector<uint64_t>> r;
        bool none = contains(lower(out), "limit configured");
        for (auto &l : lines(out)) {
            std::string x = lower(l);
            auto        p = x.rfind("allow ");
            if (p == std::string::npos)
                continue;
            std::istringstream is(x.substr(p + 6));
            std::string        how;
            uint64_t           n;
            is >> how >> n;
            c.check(!!is, "cannot read LIMIT PRINT line ", pbt::show(l, 200));
            bool bytes = contains(x.substr(p), "bytes per second");
            bool alarm = contains(x, "alarm only");
            r[std::string(bytes ? "data" : "conn") + (alarm ? " alarm" : "")].push_back(n);
        }
        c.check(!none || r.empty(), when, ": LIMIT PRINT shows a limit and says there is none: ", out);
        return r;
    };
    const std::vector<std::pair<const char *, const Lim *>> kinds = {{"conn", &m.conn}, {"conn alarm", &m.connAlarm}, {"data", &m.data}, {"data alarm", &m.dataAlarm}};
    auto                                                    same = [&](std::map<std::string, std::vector<uint64_t>> got, const std::string *v) {
        for (auto &k : kinds) {
            std::vector<uint64_t> want;
            auto                  x = v ? k.second->of(*v) : k.second->def;
            if (x)
                want.push_back(*x);
            c.check(got[k.first] == want, when, ": LIMIT PRINT ", v ? *v : "", " shows ",
                    got[k.first].empty() ? std::string("no limit") : std::to_string(got[k.first][0]), " (", k.first, ") instead of ",
                    want.empty() ? std::string("no limit") : std::to_string(want[0]));
        }
    };
    same(read(w.ctl("LIMIT PRINT")), nullptr);
    for (int i = 0; i < 3; ++i) {
        std::string v = c.pick(VHOSTS);
        same(read(w.ctl("LIMIT PRINT " + v)), &v);
    }
}

// A line that is certainly not a valid command.
std::string invalidLine(pbt::Ctx &c, const Model &m)
{
    auto v = [&] { return c.pick(VHOSTS); };
    switch (c.below(26)) {
    case 0: return "BACKEND ADD " + c.pick(NAMES);
    case 1: return "BACKEND ADD " + c.pick(NAMES) + " dc1 127.0.0.1";
    case 2: return "BACKEND ADD nb dc1 127.0.0.1 port";
    case 3: return "BACKEND ADD nb dc1 none.sys 5672";
    case 4: return "BACKEND " + c.text(1 + c.below(6), "QZJ#\"\\") + " nb dc1 127.0.0.1 5672";
    case 5: return "BACKEND DELETE";
    case 6: return "FARM ADD nf";
    case 7: return "FARM ADD nf round-robin missing1";
    case 8: {
        std::string l = "FARM ADD nf round-robin";
        for (auto &b : m.backends)
            l += " " + b.first;
        return l + " missing2";
    }
    case 9: return "FARM ADD nf fastest " + c.pick(NAMES);
    case 10: return "FARM PARTITION " + c.pick(FARMS) + " by-weight";
    case 11: return "FARM PARTITION missing-farm datacenter-affinity";
    case 12: return "FARM DELETE";
    case 13: return "MAP FARM " + v();
    case 14: return "MAP BACKEND " + v();
    case 15: return "MAP " + c.text(1 + c.below(4), "QZJ#") + " " + v() + " b0";
    case 16: return "MAP DEFAULT";
    case 17: return "AUTH SERVICE host";
    case 18: return "AUTH SERVICE host " + c.oneof<std::string>({"0", "-1", "65536", "99999999999", "x"}) + " /t";
    case 19: return "AUTH SERVICE host 80";
    case 20: return "AUTH " + c.text(c.below(5), "QZJ");
    case 21: return std::string("LIMIT ") + c.oneof<std::string>({"CONN_RATE", "CONN_RATE_ALARM", "DATA_RATE", "DATA_RATE_ALARM"}) + " " +
                    (c.flip() ? "DEFAULT" : "VHOST " + v()) + c.oneof<std::string>({"", " x", " ten"});
    case 22: return std::string("LIMIT ") + c.oneof<std::string>({"CONN_RATE VHOST", "SPEED DEFAULT 3", "DISABLE", "DISABLE CONN_RATE", "DISABLE SPEED DEFAULT", "CONN_RATE DEFAULT 4294967296",
                                                                    "CONN_RATE EVERY 3", "DATA_RATE DEFAULT 18446744073709551616"});
    case 23: return "VHOST " + c.oneof<std::string>({"", "PAUSE", "UNPAUSE", "STOP v0", "HOLD /"});
    case 24: return "DATACENTER " + c.oneof<std::string>({"", "GET", "MOVE dc9"});
    default: return c.text(1 + c.below(8), "QZJ#\"\\\t;") + " " + c.text(c.below(12), "ab 01/");
    }
}

// One valid configuration command, applied to the model too.
void step(World &w, Model &m, bool &dup)
{
    pbt::Ctx &c = w.c;
    auto      send = [&](const std::string &verb, const std::string &sub, const std::vector<std::string> &args) {
        std::string l = anyCase(c, verb) + sp(c) + anyCase(c, sub);
        for (auto &a : args)
            l += sp(c) + a;
        return w.ctl(l);
    };
    switch (c.weighted({6, 3, 5, 2, 4, 3, 2, 4, 3, 2, 2, 6, 3, 1})) {
    case 0: {
        std::string n   = c.weighted({9, 1}) == 0 ? c.pick(NAMES) : std::string("n") + std::to_string(c.below(40));
        bool        dns = c.weighted({3, 1}) == 1;
        Be          b;
        b.dc   = c.pick(DCS);
        b.host = c.oneof<std::string>({"127.0.0.1", "10.9.8.7", "::1", "one.sys", "two.sys", "six.sys", "2001:db8::1"});
        if (!dns)
            b.ip = sysNames.count(b.host) ? sysNames[b.host][0] : b.host;
        b.port = (int)c.oneof<int64_t>({5672, 1, 65535, 5671, 80});
        std::vector<std::string> args = {n, b.dc, b.host, std::to_string(b.port)};
        switch (c.below(5)) {
        case 1: b.proxy = true; args.push_back(anyCase(c, "SEND-PROXY")); break;
        case 2: b.tls = true; args.push_back(anyCase(c, "TLS")); break;
        case 3:
            b.proxy = b.tls = true;
            if (c.flip()) {
                args.push_back("SEND-PROXY");
                args.push_back("TLS");
            }
            else {
                args.push_back("TLS");
                args.push_back("SEND-PROXY");
            }
            break;
        }
        auto r = send("BACKEND", dns ? "ADD_DNS" : "ADD", args);
        if (m.backends.count(n)) {
            c.check(contains(lower(r), "fail"), "adding backend ", n, " again was not reported: ", pbt::show(r, 200));
            dup = true;
        }
        else {
            c.check(!contains(lower(r), "fail"), "adding backend ", n, " failed: ", pbt::show(r, 200));
            m.backends[n] = b;
        }
        break;
    }
    case 1: {
        std::string n = c.pick(NAMES);
        auto        r = send("BACKEND", "DELETE", {n});
        c.check(contains(lower(r), "fail") == !m.backends.count(n), "deleting backend ", n, m.backends.count(n) ? " (existing)" : " (unknown)", " answered ",
                pbt::show(r, 200));
        if (!m.backends.count(n))
            dup = true;
        m.backends.erase(n);
        break;
    }
    case 2: {
        std::string              f = c.pick(FARMS);
        std::vector<std::string> mem, args = {f, "round-robin"};
        bool                     ok = true;
        for (auto &b : NAMES)
            if (c.below(4) == 0) {
                mem.push_back(b);
                args.push_back(b);
                ok = ok && m.backends.count(b);
            }
        if (mem.empty())
            return;
        auto r = send("FARM", c.flip() ? "ADD" : "ADD_MANUAL", args);
        c.check(contains(lower(r), "not") == !ok, "FARM ADD with ", ok ? "existing" : "missing", " members answered ", pbt::show(r, 200));
        if (ok)
            m.farms[f] = mem;
        else
            dup = true;
        break;
    }
    case 3: {
        std::string f = c.pick(FARMS);
        send("FARM", "DELETE", {f});
        m.farms.erase(f);
        break;
    }
    case 4: {
        std::string v = c.pick(VHOSTS), t = c.pick(FARMS);
        send("MAP", "FARM", {v, t});
        m.maps[v] = {true, t};
        break;
    }
    case 5: {
        std::string v = c.pick(VHOSTS), t = c.pick(NAMES);
        send("MAP", "BACKEND", {v, t});
        m.maps[v] = {false, t};
        break;
    }
    case 6: {
        std::string v = c.pick(VHOSTS);
        send("MAP", "UNMAP", {v});
        m.maps.erase(v);
        break;
    }
    case 7: {
        std::string v = c.pick(VHOSTS);
        bool        p = c.flip();
        send("VHOST", p ? "PAUSE" : "UNPAUSE", {v});
        if (p)
            m.paused.insert(v);
        else
            m.paused.erase(v);
        break;
    }
    case 8: {
        m.dc = c.pick(DCS);
        send("DATACENTER", "SET", {m.dc});
        break;
    }
    case 9: {
        if (c.flip()) {
            send("AUTH", "ALWAYS_ALLOW", {});
            m.auth = "";
        }
        else {
            std::string h = c.oneof<std::string>({"auth.test", "10.0.0.1"}), p = c.oneof<std::string>({"1", "80", "65535"}), t = c.oneof<std::string>({"/", "/a/b?c"});
            send("AUTH", "SERVICE", {h, p, t});
            m.auth = "http://" + h + ":" + p + t;
        }
        break;
    }
    case 10: {
        send("FARM", "PARTITION", {c.pick(FARMS), "datacenter-affinity"});
        break;
    }
    case 11:
    case 12: {
        static const char *names[] = {"CONN_RATE", "CONN_RATE_ALARM", "DATA_RATE", "DATA_RATE_ALARM"};
        Lim               *lims[]  = {&m.conn, &m.connAlarm, &m.data, &m.dataAlarm};
        int                k       = (int)c.below(4);
        std::string        v       = c.pick(VHOSTS);
        bool               def     = c.below(3) == 0;
        std::vector<std::string> args = {def ? anyCase(c, "DEFAULT") : anyCase(c, "VHOST")};
        if (!def)
            args.push_back(v);
        if (c.below(3) == 0) {
            args.insert(args.begin(), names[k]);
            send("LIMIT", "DISABLE", args);
            if (def)
                lims[k]->def.reset();
            else
                lims[k]->per.erase(v);
        }
        else {
            uint64_t n = k < 2 ? c.oneof<int64_t>({0, 1, 7, 1000, 4294967295}) : c.oneof<int64_t>({1, 7, 100000, 4294967296, 1ll << 62});
            args.push_back(std::to_string(n));
            send("LIMIT", names[k], args);
            if (def)
                lims[k]->def = n;
            else
                lims[k]->per[v] = n;
        }
        break;
    }
    case 13: {
        send("MAP", c.flip() ? "REMOVE_DEFAULT" : "DEFAULT", {c.pick(FARMS)});
        break;
    }
    }
}
}

PBT_TARGET(config_any,
           "up to 40 configuration commands of every kind over colliding names, in any letter case, with rejected ones in between; all printouts "
           "compared with a model on the way and at the end. Non-trivial: at least 4 commands including one that had to be refused.")
{
    World::run(c, {}, [&](World &w) {
        Model       m;
        std::size_t steps = 1 + c.size(0, 39), refused = 0;
        m.dc = "";
        {
            auto d = w.ctl("DATACENTER PRINT");
            m.dc   = d.substr(0, d.find('\n'));
        }
        for (std::size_t i = 0; i < steps; ++i) {
            if (c.below(6) == 0) {
                auto before = dump(w);
                auto l      = invalidLine(c, m);
                auto r      = w.ctl(l);
                c.check(!r.empty(), "nothing was answered to the invalid command ", pbt::show(l, 200));
                auto after = dump(w);
                c.check(before == after, "the invalid command ", pbt::show(l, 200), " changed the configuration");
                ++refused;
            }
            else {
                bool dup = false;
                step(w, m, dup);
                refused += dup;
            }
            if (c.below(12) == 0)
                compare(w, m, "on the way");
        }
        compare(w, m, "at the end");
        compare(w, m, "printed again");
        if (steps >= 4 && refused)
            c.nontrivial();
        // what is printed is what is used: a vhost mapped to nothing printed is refused
        if (!m.paused.count("v0") && m.auth.empty() && !m.maps.count("v0") && !m.conn.of("v0") && !m.data.of("v0") && !m.data.def) {
            w.ctl("MAP REMOVE_DEFAULT");
            int  port = w.listen();
            auto cl   = w.login(port, plainLogin("v0"));
            c.check(cl->gotClose && !cl->isOpen, "a vhost without a printed mapping was not refused: ", outcomeOf(*cl));
            c.label("unmapped login");
        }
    });
}

namespace {
std::shared_ptr<Peer> ctlPeer(World &w, const std::string &bytes)
{
    auto p        = std::make_shared<Peer>();
    p->fd         = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a = {};
    a.sun_family  = AF_UNIX;
    strncpy(a.sun_path, w.sock.c_str(), sizeof(a.sun_path) - 1);
    if (::connect(p->fd, (sockaddr *)&a, sizeof a))
        w.c.fail("control socket refused the connection");
    fcntl(p->fd, F_SETFL, O_NONBLOCK);
    p->send(bytes);
    w.others.push_back(p);
    return p;
}

// Any line at all that neither exits nor is meant to disturb the open session.
std::string anyLine(pbt::Ctx &c, const Model &m, const std::string &dir, int busyPort, bool &streams)
{
    streams  = false;
    auto num = [&] { return c.oneof<std::string>({"0", "1", "5", "-1", "65535", "65536", "4294967296", "99999999999999999999", "x", "1x", "", "0x10", "1e3", "+7"}); };
    auto arg = [&]() -> std::string {
        switch (c.below(7)) {
        case 0: return c.pick(NAMES);
        case 1: return c.pick(VHOSTS);
        case 2: return num();
        case 3: return c.text(c.below(10), "ab\t\"'\\=:/.*%$;|<>{}");
        case 4: return c.oneof<std::string>({"127.0.0.1", "::1", "none.sys", "lo.sys", "two.sys", dir + "/nofile", dir, "/dev/null", "all", "overall", "vhost=v0", "vhost==", "=", "PER-SOURCE"});
        case 5: return c.bulk(c.weighted({3, 1}) ? 5000 : 60);
        default: return "";
        }
    };
    std::string l;
    switch (c.weighted({3, 4, 4, 4, 3, 4, 3, 3, 5, 3, 3, 2, 2, 2, 2, 1})) {
    case 0: l = invalidLine(c, m); break;
    case 1: l = "BACKEND " + c.oneof<std::string>({"ADD", "ADD_DNS", "DELETE", "PRINT"}); break;
    case 2: l = "FARM " + c.oneof<std::string>({"ADD", "ADD_MANUAL", "PARTITION", "DELETE", "PRINT", "ADD f0 round-robin", "PARTITION f0 datacenter-affinity"}); break;
    case 3: l = "MAP " + c.oneof<std::string>({"BACKEND", "FARM", "UNMAP", "DEFAULT", "REMOVE_DEFAULT", "PRINT"}); break;
    case 4: l = "VHOST " + c.oneof<std::string>({"PAUSE", "UNPAUSE", "PRINT", "BACKEND_DISCONNECT", "FORCE_DISCONNECT"}); break;
    case 5: l = "LIMIT " + c.oneof<std::string>({"CONN_RATE DEFAULT", "CONN_RATE VHOST", "CONN_RATE_ALARM DEFAULT", "DATA_RATE_ALARM VHOST", "DATA_RATE VHOST", "DISABLE", "DISABLE DATA_RATE DEFAULT",
                                                  "PRINT", "DISABLE CONN_RATE VHOST"}); break;
    case 6: l = "AUTH " + c.oneof<std::string>({"SERVICE", "ALWAYS_ALLOW", "PRINT", "SERVICE 127.0.0.1 80 /x", "SERVICE 127.0.0.1 1"}); break;
    case 7: l = "DATACENTER " + c.oneof<std::string>({"SET", "PRINT"}); break;
    case 8:
        switch (c.below(6)) {
        case 0: l = "STAT SEND"; break;
        case 1: return "STAT SEND " + c.oneof<std::string>({"lo.sys", "127.0.0.1", "none.sys", "::1", "6.sys", "six.sys", "a..b"}) + " " +
                       c.oneof<std::string>({"9", "0", "-5", "65535", "65536", "70000", "2147483647", "x", ""});
        case 2: l = "STAT STOP" + c.oneof<std::string>({"", " SEND", " send", " ALL"}); break;
        case 3: l = "STAT " + c.oneof<std::string>({"ENABLE", "DISABLE"}) + c.oneof<std::string>({"", " per-source", " PER-SOURCE", " x"}); break;
        case 4: return "STAT LISTEN" + c.oneof<std::string>({"", " xml", " csv all", " json all=", " human =", " json a=b=c"});
        case 5:
            streams = true;
            return "STAT LISTEN " + c.oneof<std::string>({"json", "human", "JSON", "Human"}) +
                   c.oneof<std::string>({"", " all", " overall", " process", " bufferpool", " vhost=v0", " backend=x", " source=127.0.0.1", " color=red", " VHOST=/"});
        }
        break;
    case 9: return "LISTEN " + c.oneof<std::string>({"START", "START_SECURE", "STOP 1", "START 0", "START -1", "START 65536", "START x", "START_SECURE 70000", "PAUSE 5", "", "RESTART",
                                                     "START " + std::to_string(busyPort), "START_SECURE " + std::to_string(busyPort), "STOP " + std::to_string(busyPort)});
    case 10: l = std::string("TLS ") + c.oneof<std::string>({"INGRESS", "EGRESS", "ingress", "UP"}) + " " +
                 c.oneof<std::string>({"KEY_FILE", "CERT_CHAIN_FILE", "RSA_KEY_FILE", "TMP_DH_FILE", "CA_CERT_FILE", "VERIFY_MODE", "VERIFY_MODE PEER NONE", "CIPHERS", "CIPHERS PRINT", "CIPHERS SET",
                                       "CIPHERS SET nonsense", "CIPHERS SET HIGH", "KEY_FILE " + tlsKeyFile(), "CERT_CHAIN_FILE " + tlsCertFile(), "KEY_FILE " + tlsCertFile(), "UNKNOWN"}); break;
    case 11: return "SESSION " + c.oneof<std::string>({"", "x", "987654", "-1", "987654 PAUSE", "987654 FORCE_DISCONNECT", "99999999999999999999 FORCE_DISCONNECT", "1 SLEEP", "FORCE_DISCONNECT"});
    case 12: l = "LOG " + c.oneof<std::string>({"", "CONSOLE", "FILE", "CONSOLE 0", "FILE 0", "CONSOLE -1", "FILE x", "X 3"}); return l;
    case 13: l = c.oneof<std::string>({"CONN", "HELP", "help", "MAPHOSTNAME", "MAPHOSTNAME IP", "conn", "EXITS", "EXIT!", "EXI"}); break;
    case 14: {
        Bytes b = c.bytes(c.below(200));
        for (auto &ch : b)
            if (ch == '\n')
                ch = ' ';
        l = "\x01" + b;
        return l;
    }
    case 15: return "";
    }
    for (std::size_t i = 0, n = c.below(6); i < n; ++i)
        l += std::string(1 + (c.below(8) == 0), ' ') + arg();
    std::string up;
    for (char ch : l)
        up += toupper(ch);
    if (up == "EXIT" || up.rfind("EXIT ", 0) == 0)
        l = "X" + l;
    return anyCase(c, l.substr(0, l.find(' '))) + (l.find(' ') == std::string::npos ? "" : l.substr(l.find(' ')));
}
}

PBT_TARGET(control_any,
           "up to 30 arbitrary control lines: every command with valid, boundary, missing, surplus, huge and garbage arguments, raw bytes, senders that "
           "leave early or stop in mid-line and streams; each must be answered and the answer end, an open session keep working throughout and new ones "
           "log in. Non-trivial: at least 3 lines.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("victim-backend");
        w.ctl("MAP BACKEND victim victim-backend");
        int               port = w.listen();
        std::vector<Sess> ss;
        ss.push_back(openSession(w, port, plainLogin("victim")));
        int         busyFd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a      = {};
        a.sin_family       = AF_INET;
        a.sin_addr.s_addr  = htonl(INADDR_ANY);
        if (bind(busyFd, (sockaddr *)&a, sizeof a) || ::listen(busyFd, 8)) {
            ::close(busyFd);
            c.discard();
        }
        struct Closer {
            int fd;
            ~Closer() { ::close(fd); }
        } closer{busyFd};
        socklen_t l = sizeof a;
        getsockname(busyFd, (sockaddr *)&a, &l);
        Model       m;
        std::size_t n = 1 + c.size(0, 29);
        struct St {
            std::shared_ptr<Peer> p;
            std::size_t           at;
            std::string           cmd;
        };
        std::vector<St> streams;
        for (std::size_t i = 0; i < n; ++i) {
            bool        st   = false;
            std::string line = anyLine(c, m, w.dir, ntohs(a.sin_port), st);
            if (st) {
                auto p = ctlPeer(w, line + "\n");
                w.note("stream ", line);
                w.settle(3);
                streams.push_back({p, 0, line});
                c.check(!p->ended(), "the stream ", pbt::show(line, 100), " ended at once");
                c.label("stream");
            }
            else
                switch (c.weighted({10, 1, 1, 1, 1})) {
                case 0: w.ctl(line); break;
                case 4: {
                    // something the answer to which is known, however long
                    std::string x = c.oneof<std::string>({"HELP", "help", "NOTHING", "\xff", "HELPS"});
                    if (c.flip())
                        x += " " + c.text(c.below(20), "ab ") + std::string(c.oneof<std::size_t>({0, 100, 500, 1000, 5000, 20000, 70000, 200000}), 'x');
                    auto r = w.ctl(x);
                    c.check(contains(r, "\nFARM ") && contains(r, "\nVHOST "), "the answer to ", pbt::show(x, 60), " (", x.size(), " bytes) is ", pbt::show(r, 200));
                    c.label("help");
                    break;
                }
                case 1: {
                    // gone before the reply
                    auto p = ctlPeer(w, line + "\n");
                    w.note("send and leave ", pbt::show(line, 200));
                    p->service();
                    p->close();
                    w.settle(2);
                    c.label("left before the reply");
                    break;
                }
                case 2: {
                    // gone in mid-line
                    auto p = ctlPeer(w, line);
                    w.note("half a line ", pbt::show(line, 200));
                    for (std::size_t k = c.below(3); k-- > 0;)
                        w.round();
                    p->close();
                    w.settle(2);
                    c.label("left in mid-line");
                    break;
                }
                case 3: {
                    // in pieces
                    auto  p = ctlPeer(w, "");
                    Bytes b = line + "\n";
                    auto  k = c.below(b.size() + 1);
                    p->send(b.substr(0, k));
                    w.settle(1);
                    p->send(b.substr(k));
                    w.note("in pieces ", pbt::show(line, 200));
                    c.check(w.until([&] { return p->ended(); }), "no complete reply to ", pbt::show(line, 200), " sent in two pieces");
                    c.label("in pieces");
                    break;
                }
                }
            c.check(!w.exited, "the proxy stopped after ", pbt::show(line, 200));
            if (c.below(6) == 0) {
                w.advance(c.oneof<int64_t>({1000, 5000, 11000}));
                w.settle(2);
            }
            if (!streams.empty() && c.below(6) == 0) {
                auto k = c.below(streams.size());
                streams[k].p->close();
                streams.erase(streams.begin() + k);
            }
        }
        // streams go on
        for (auto &s : streams)
            s.at = s.p->rxTotal;
        w.advance(11000);
        w.settle(3);
        for (auto &s : streams) {
            c.check(!s.p->ended(), "the stream ", s.cmd, " ended");
            c.check(s.p->rxTotal > s.at, "the stream ", s.cmd, " sends nothing any more");
        }
        c.check(!w.exited, "the proxy stopped");
        auto h = w.ctl("HELP");
        for (const char *v : {"AUTH", "BACKEND", "CONN", "DATACENTER", "EXIT", "FARM", "HELP", "LIMIT", "LISTEN", "LOG", "MAP", "MAPHOSTNAME", "SESSION", "STAT", "TLS", "VHOST"}) {
            bool found = false;
            for (auto &x : lines(h))
                found = found || x.rfind(std::string(v) + " ", 0) == 0;
            c.check(found, "HELP does not list ", v);
        }
        w.ctl("AUTH ALWAYS_ALLOW");
        for (const char *k : {"CONN_RATE", "DATA_RATE"})
            w.ctl(std::string("LIMIT DISABLE ") + k + " DEFAULT");
        probe(w, ss[0], "a session open during the commands");
        auto s2 = openSession(w, port, plainLogin("victim"));
        probe(w, s2, "a session opened after the commands");
        if (n >= 3)
            c.nontrivial();
    });
}

PBT_TARGET(bigout_any,
           "printouts and statistics of up to a megabyte and more, read slowly, in small pieces or only after several intervals; nothing may be missing, "
           "repeated or mixed up. Non-trivial: more than 100 kB of output.")
{
    World::run(c, {}, [&](World &w) {
        std::size_t total = 0;
        if (c.flip()) {
            // printouts
            std::size_t              n   = c.oneof<int64_t>({1, 3, 20, 60}), len = c.oneof<int64_t>({10, 3000, 30000});
            std::string              big = c.bulk(64);
            std::vector<std::string> names;
            for (auto &ch : big)
                ch = 'a' + (unsigned char)ch % 26;
            std::multiset<std::string> want;
            for (std::size_t i = 0; i < n; ++i) {
                std::string name = std::to_string(i) + "-";
                while (name.size() < len)
                    name += big;
                w.ctl("MAP BACKEND " + name + " b" + std::to_string(i));
                want.insert("\"" + name + "\" => Backend:b" + std::to_string(i));
            }
            for (int k = 0; k < 2; ++k) {
                auto p       = ctlPeer(w, "MAP PRINT\n");
                p->readLimit = c.oneof<int64_t>({0, 1000, 70000});
                p->stalled   = c.flip();
                w.settle(3);
                p->stalled = false;
                if (n * len / (p->readLimit ? p->readLimit : 1u << 30) > 400)
                    p->readLimit = n * len / 400;
                c.check(w.until([&] { return p->ended(); }, 15), "a printout of ", n * len, " bytes does not end");
                total = p->rx.size();
                std::multiset<std::string> have;
                for (auto &l : lines(p->rx))
                    have.insert(l);
                c.check(want == have, "a printout of about ", n * len, " bytes is not complete: ", p->rx.size(), " bytes read");
            }
            c.label("printout");
        }
        else {
            // statistics with many vhosts
            int               port = w.listen();
            std::size_t       n    = c.oneof<int64_t>({2, 40, 90});
            std::set<std::string> names;
            for (std::size_t i = 0; i < n; ++i) {
                std::string v = std::to_string(i) + std::string(250, '\x01');
                w.ctl("VHOST PAUSE " + v);
                names.insert(v);
                auto cl = w.connect(port, plainLogin(v));
                cl->begin();
            }
            w.settle(4);
            auto p     = ctlPeer(w, "STAT LISTEN json\n");
            w.settle(2);
            p->stalled = true;
            p->readLimit = c.oneof<int64_t>({0, 20000});
            std::size_t k = 1 + c.below(5);
            for (std::size_t i = 0; i < k; ++i) {
                w.advance(5000);
                w.settle(2);
            }
            p->stalled = false;
            c.check(w.until([&] { return (std::size_t)std::count(p->rx.begin(), p->rx.end(), '\n') >= k; }, 15), "the statistics of ", k,
                    " intervals do not arrive: ", p->rx.size(), " bytes");
            w.settle(4);
            total = p->rx.size();
            for (auto &l : lines(p->rx)) {
                js::Value  v;
                js::Parser ps(l);
                c.check(ps.whole(v), "a statistics snapshot is not JSON: ", ps.err);
                c.check(v.at("vhosts").o.size() == n, v.at("vhosts").o.size(), " vhosts in a snapshot instead of ", n);
                c.check(v.at("overall").u("activeConnectionCount") + v.at("overall").u("pausedConnectionCount") > 0, "no connections counted");
            }
            c.label("statistics");
            for (auto &cl : w.clients)
                cl->close();
        }
        if (total > 100000)
            c.nontrivial();
    });
}
