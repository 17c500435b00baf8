// Alarm-only limits and what the log may say.
#include "scen.h"

#include <optional>

namespace {
struct Win {  // one possible state of a vhost's alarm window
    bool     started = false;
    int64_t  since   = 0;
    uint64_t count   = 0;
    bool operator<(const Win &o) const { return std::tie(started, since, count) < std::tie(o.started, o.since, o.count); }
};
struct VAlarm {
    std::optional<uint64_t> own;
    std::set<Win>           wins;
};
// puts the hook back whatever happens
struct Capture {
    std::vector<LogLine> lines;
    Capture()
    {
        g_logHook = [this](const LogLine &l) { lines.push_back(l); };
    }
    ~Capture() { g_logHook = nullptr; }
};
bool mentions(const std::string &text, const std::string &v)
{
    // as a whole word
    for (std::size_t p = text.find(v); p != std::string::npos; p = text.find(v, p + 1)) {
        bool l = p == 0 || !(isalnum((unsigned char)text[p - 1]) || text[p - 1] == '/');
        bool r = p + v.size() == text.size() || !(isalnum((unsigned char)text[p + v.size()]) || text[p + v.size()] == '/');
        if (l && r)
            return true;
    }
    return false;
}
}

PBT_TARGET(connalarm_any,
           "up to 40 steps of LIMIT CONN_RATE_ALARM (vhost, default, disable), real limits, bursts of logins and clock advances "
           "around the window edge, with every log line captured: each login beyond the alarm limit must be reported once, at "
           "warning level with the vhost and the limit, all others not, and no login is held up by an alarm. Non-trivial: at "
           "least one login reported and one not.")
{
    World::run(c, {}, [&](World &w) {
        Capture cap;
        w.addBackend("b0");
        std::vector<std::string> vhosts = {"vh0", c.flip() ? "VH0" : "vh0/x", "vh1", "unmapped"};
        for (int i = 0; i < 3; ++i)
            w.ctl("MAP BACKEND " + vhosts[i] + " b0");
        int                           port = w.listen();
        std::map<std::string, VAlarm> m;
        std::optional<uint64_t>       def;
        bool                          realLimit = false;
        std::size_t                   nRep = 0, nNot = 0;
        std::vector<std::shared_ptr<Client>> openOnes;
        auto restart = [&](const std::string &v) {
            Win fresh;
            m[v].wins.insert(fresh);
            fresh.started = true;
            fresh.since   = vclock::nowMs();
            m[v].wins.insert(fresh);
        };
        // warnings about connection limits since `from`, which must all be about v
        auto reports = [&](std::size_t from, const std::string &v, uint64_t lim) {
            std::size_t n = 0;
            for (std::size_t i = from; i < cap.lines.size(); ++i) {
                const LogLine &l = cap.lines[i];
                if (!contains(l.text, "AMQPPROX_CONNECTION_LIMIT") || l.severity > 2)
                    continue;
                c.check(l.severity == 2, "the alarm is logged with severity ", l.severity);
                c.check(mentions(l.text, v), "a login for ", v, " is reported as: ", l.text);
                c.check(mentions(l.text, std::to_string(lim)), "the alarm for ", v, " (limit ", lim, ") says: ", l.text);
                ++n;
            }
            return n;
        };
        auto attempt = [&](const std::string &v) {
            bool mapped = v != "unmapped";
            auto lim    = m[v].own ? m[v].own : def;
            std::set<Win> quiet, loud;
            int64_t       now = vclock::nowMs();
            if (lim) {
                if (m[v].wins.empty())
                    restart(v);
                for (Win s : m[v].wins) {
                    if (!s.started || now - s.since >= 1000) {
                        s.started = true;
                        s.since   = now;
                        s.count   = 0;
                    }
                    if (s.count < *lim) {
                        ++s.count;
                        quiet.insert(s);
                    }
                    else
                        loud.insert(s);
                }
            }
            std::size_t from = cap.lines.size();
            auto        cl   = w.connect(port, plainLogin(v));
            cl->begin();
            w.until([&] { return cl->isOpen || cl->gotClose || cl->ended() || (realLimit && cl->sentTuneOk); }, 4);
            if (realLimit)
                w.settle(5);
            else if (mapped)
                c.check(cl->isOpen, "a login for ", v, " did not complete although only alarms are set: ", outcomeOf(*cl));
            std::size_t n = reports(from, v, lim ? *lim : 0);
            w.note("login for ", v, " reported ", n, " times, alarm limit ", lim ? (long long)*lim : -1LL);
            c.check(n <= 1, "one login for ", v, " was reported ", n, " times");
            c.check(!n || lim, "a login for ", v, " was reported although it has no alarm limit");
            c.check(!n || !loud.empty(), "a login for ", v, " was reported although its alarm limit of ", lim ? *lim : 0, " is not exceeded");
            c.check(n || !lim || !quiet.empty(), "a login for ", v, " beyond its alarm limit of ", lim ? *lim : 0, " was not reported");
            if (lim)
                m[v].wins = n ? loud : quiet;
            ++(n ? nRep : nNot);
            openOnes.push_back(cl);
            if (openOnes.size() > 8) {
                openOnes.front()->close();
                openOnes.erase(openOnes.begin());
            }
        };
        std::size_t steps = 4 + c.size(0, 36);
        for (std::size_t k = 0; k < steps; ++k) {
            const std::string &v = c.pick(vhosts);
            switch (c.weighted({7, 4, 4, 3, 2, 1, 1, 1})) {
            case 0:
                for (std::size_t i = 0, n = 1 + c.below(5); i < n; ++i)
                    attempt(v);
                break;
            case 1: w.advance(c.oneof<int>({1, 100, 249, 250, 400, 750, 999, 1000, 1001, 1700})); break;
            case 2: {
                uint64_t n = c.oneof<uint64_t>({1, 2, 3, 0, 5, 4294967295u});
                w.ctl("LIMIT CONN_RATE_ALARM VHOST " + v + " " + std::to_string(n));
                m[v].own = n;
                restart(v);
                break;
            }
            case 3: {
                uint64_t n = c.oneof<uint64_t>({2, 1, 3, 0, 5, 4294967295u});
                w.ctl("LIMIT CONN_RATE_ALARM DEFAULT " + std::to_string(n));
                def = n;
                for (auto &x : vhosts)
                    if (!m[x].own)
                        restart(x);
                break;
            }
            case 4:
                w.ctl("LIMIT DISABLE CONN_RATE_ALARM VHOST " + v);
                m[v].own.reset();
                restart(v);
                break;
            case 5:
                w.ctl("LIMIT DISABLE CONN_RATE_ALARM DEFAULT");
                def.reset();
                for (auto &x : vhosts)
                    if (!m[x].own)
                        m[x].wins.clear();
                break;
            case 6:
                // real limits neither cause nor silence alarms
                if (c.chance(1, 2)) {
                    w.ctl(std::string("LIMIT CONN_RATE ") + (c.flip() ? "VHOST " + v : std::string("DEFAULT")) + " " + std::to_string(c.below(3)));
                    realLimit = true;
                    c.label("real limit");
                }
                else
                    w.ctl(std::string("LIMIT DISABLE CONN_RATE ") + (c.flip() ? "VHOST " + v : std::string("DEFAULT")));
                break;
            case 7: {
                std::string r = w.ctl("LIMIT PRINT " + v);
                auto        lim = m[v].own ? m[v].own : def;
                (void)lim;
                (void)r;
                break;
            }
            }
        }
        if (nRep && nNot)
            c.nontrivial();
    });
}

namespace {
struct DS {
    Sess        s;
    std::string vhost;
    std::vector<std::pair<int64_t, std::size_t>> took;  // when, how many client bytes
    std::set<uint64_t> ids;
    bool        tls = false;
    std::size_t since(int64_t t) const
    {
        std::size_t n = 0;
        for (auto &x : took)
            if (x.first >= t)
                n += x.second;
        return n;
    }
};
}

PBT_TARGET(dataalarm_any,
           "2-3 sessions (plain and TLS) of different vhosts; phases of LIMIT DATA_RATE_ALARM commands (vhost, default, disable), "
           "each followed by seconds of client traffic above, near or below the alarm rate and broker traffic far above it, with "
           "the log captured: an alarm line names the session that was over its rate and the rate, a session over its rate for "
           "seconds is reported, no byte is held back. Non-trivial: a session was reported and another one was not.")
{
    World::run(c, {}, [&](World &w) {
        Capture cap;
        w.setupTls();
        w.addBackend("b0");
        w.ctl("MAP BACKEND va b0");
        w.ctl("MAP BACKEND vb b0");
        w.ctl("MAP BACKEND vc b0");
        int port = w.listen(), sport = w.listen(true);
        constexpr uint64_t NOLIM = ~0ull;
        std::map<std::string, uint64_t> own;
        uint64_t                        def = NOLIM;
        // every rate in force lately, by vhost
        std::map<std::string, std::vector<std::pair<int64_t, uint64_t>>> hist;
        std::vector<std::string> vs = {"va", "vb", "vc"};
        auto rateOf = [&](const std::string &v) { return own.count(v) ? own[v] : def; };
        std::vector<std::pair<int64_t, uint64_t>> defs;
        auto record = [&] {
            if (defs.empty() || defs.back().second != def)
                defs.emplace_back(vclock::nowMs(), def);
            for (auto &v : vs)
                if (hist[v].empty() || hist[v].back().second != rateOf(v))
                    hist[v].emplace_back(vclock::nowMs(), rateOf(v));
        };
        record();
        std::vector<DS> ss;
        std::size_t     checked = 0;
        bool            reported = false, silent = false;
        // looks at the lines since the last call
        auto look = [&](std::map<std::string, std::size_t> *count = nullptr) {
            int64_t now = vclock::nowMs();
            for (; checked < cap.lines.size(); ++checked) {
                const LogLine &l = cap.lines[checked];
                if (!contains(l.text, "Data Rate Alarm"))
                    continue;
                c.check(l.hasVhost && l.hasConn, "a data rate alarm does not say which session it is about: ", l.text);
                if (l.vhost.empty()) {  // while logging in, the default is the rule
                    bool any = false;
                    for (std::size_t i = 0; i < defs.size(); ++i)
                        if (defs[i].second != NOLIM && (i + 1 == defs.size() || defs[i + 1].first >= now - 2200))
                            any = true;
                    c.check(any, "a session without a vhost yet was reported although there is no default alarm rate");
                    continue;
                }
                DS *d = nullptr;
                for (auto &x : ss)
                    if (x.vhost == l.vhost)
                        d = &x;
                c.check(d != nullptr, "a data rate alarm is about vhost ", l.vhost, " which has no session");
                d->ids.insert(l.conn);
                c.check(d->ids.size() == 1, "alarms about one session carry different connection numbers");
                for (auto &x : ss)
                    c.check(&x == d || !x.ids.count(l.conn), "alarms about two sessions carry the same connection number");
                bool why = false;
                auto &h  = hist[l.vhost];
                std::string said;
                for (std::size_t i = 0; i < h.size(); ++i) {
                    int64_t until = i + 1 < h.size() ? h[i + 1].first : now;
                    if (until < now - 2200 || h[i].second == NOLIM)
                        continue;
                    said += " " + std::to_string(h[i].second);
                    if (d->since(now - 1000 - 120 - (now - until > 0 ? 1100 : 0)) >= h[i].second)
                        why = true;
                }
                c.check(why, "a session of ", l.vhost, " was reported (", l.text, ") although it sent only ", d->since(now - 1120),
                        " bytes in the last second; rates in force:", said);
                if (h.size() == 1 || h.back().first < now - 1100)
                    c.check(mentions(l.text, std::to_string(h.back().second)), "the alarm of ", l.vhost, " (rate ", h.back().second,
                            ") says: ", l.text);
                if (count)
                    ++(*count)[l.vhost];
                reported = true;
            }
        };
        auto command = [&] {
            std::string v = c.pick(vs);
            uint64_t    n = c.oneof<uint64_t>({1000, 5000, 1, 20000, 100, 3000});
            switch (c.weighted({5, 3, 3, 2})) {
            case 0:
                w.ctl("LIMIT DATA_RATE_ALARM VHOST " + v + " " + std::to_string(n));
                own[v] = n;
                break;
            case 1:
                w.ctl("LIMIT DATA_RATE_ALARM DEFAULT " + std::to_string(n));
                def = n;
                break;
            case 2:
                w.ctl("LIMIT DISABLE DATA_RATE_ALARM VHOST " + v);
                own.erase(v);
                break;
            case 3:
                w.ctl("LIMIT DISABLE DATA_RATE_ALARM DEFAULT");
                def = NOLIM;
                break;
            }
            record();
        };
        for (std::size_t i = 0, n = c.below(3); i < n; ++i)
            command();
        std::size_t ns = 2 + c.below(2);
        for (std::size_t i = 0; i < ns; ++i) {
            DS d;
            d.tls   = c.chance(1, 4);
            d.vhost = vs[i];
            ss.push_back(d);
            // the login itself counts, under the default rate until the vhost is known
            hist[d.vhost].emplace_back(vclock::nowMs(), def);
            hist[d.vhost].emplace_back(vclock::nowMs(), rateOf(d.vhost));
            ss.back().took.emplace_back(vclock::nowMs(), 2000);
            ss.back().s = openSession(w, d.tls ? sport : port, plainLogin(vs[i]), d.tls);
            look();
        }
        auto frameOf = [&](std::size_t n, char x) {
            ref::Frame f;
            f.type    = 3;
            f.channel = 1;
            f.payload = Bytes(n > 8 ? n - 8 : 0, x);
            return ref::encFrame(f);
        };
        std::size_t phases = 1 + c.below(4);
        for (std::size_t ph = 0; ph < phases; ++ph) {
            for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i)
                command();
            for (int i = 0; i < 24; ++i)
                w.advance(50), look();
            struct Run {
                int         way;  // 0 nothing, 1 well above, 2 well below, 3 about the rate
                std::size_t per;  // bytes every 100 ms
            };
            std::vector<Run> runs;
            std::size_t      secs = 4 + c.below(3);
            for (auto &d : ss) {
                uint64_t r = rateOf(d.vhost);
                Run      x;
                x.way = (int)c.weighted({1, 4, 3, 2});
                if (r == NOLIM)
                    x.per = x.way ? c.oneof<std::size_t>({50, 3000, 500}) : 0;
                else
                    x.per = x.way == 1 ? std::max<std::size_t>(r / 4, 24) : x.way == 2 ? std::min<std::size_t>(r / 25, 2000) : x.way == 3 ? r / 10 : 0;
                if (x.per && x.per < 8)
                    x.per = x.way == 2 ? 0 : 8;
                runs.push_back(x);
                w.note(d.vhost, d.tls ? " (TLS)" : "", " rate ", r == NOLIM ? -1LL : (long long)r, " sends ", x.per, " bytes every 100 ms");
            }
            std::map<std::string, std::size_t> count;
            for (std::size_t t = 0; t < secs * 10; ++t) {
                for (std::size_t i = 0; i < ss.size(); ++i) {
                    DS &d = ss[i];
                    if (runs[i].per) {
                        // in two pieces
                        for (int k = 0; k < 2; ++k) {
                            Bytes b = frameOf(std::max<std::size_t>(runs[i].per / 2, 8), 'u');
                            d.s.cl->send(b);
                            d.s.up.whole += b;
                            d.took.emplace_back(vclock::nowMs(), b.size());
                            w.until([&] { return d.s.br->data.size() >= d.s.up.whole.size(); }, 4);
                            c.check(d.s.br->data == d.s.up.whole, "data of a session of ", d.vhost, " did not get through although only alarms are set");
                        }
                    }
                    if (t % 4 == 0) {
                        Bytes b = frameOf(c.oneof<std::size_t>({60, 9000, 30000}), 'd');
                        d.s.br->send(b);
                        d.s.down.whole += b;
                        w.until([&] { return d.s.cl->data.size() >= d.s.down.whole.size(); }, 4);
                        c.check(d.s.cl->data == d.s.down.whole, "broker data of a session of ", d.vhost, " did not get through although only alarms are set");
                    }
                }
                look(&count);
                w.advance(100, 50);
                look(&count);
            }
            for (std::size_t i = 0; i < ss.size(); ++i) {
                uint64_t r = rateOf(ss[i].vhost);
                std::size_t n = count[ss[i].vhost];
                if (r != NOLIM && runs[i].way == 1)
                    c.check(n >= 1, "a session of ", ss[i].vhost, " sent ", runs[i].per * 10, " bytes a second for ", secs,
                            " seconds, its alarm rate is ", r, ", and was not reported");
                c.check(n <= secs + 2, "a session of ", ss[i].vhost, " was reported ", n, " times in ", secs, " seconds");
                if (!n)
                    silent = true;
            }
        }
        if (reported && silent)
            c.nontrivial();
    });
}

PBT_TARGET(secrets_any,
           "up to 30 steps of logins with unique passwords (PLAIN and AMQPLAIN, cut anywhere) that succeed, or fail through "
           "missing mappings, dead or refusing brokers, denials, limits, pauses and disconnections, with replacement "
           "credentials from the auth service, and every printing control command; no log line up to debug level, control answer, "
           "or Close sent to a client may contain a password, and each is sent to the broker and auth service of its own session only. "
           "Non-trivial: at least one login completed and one failed.")
{
    WorldOpts opts;
    opts.logLevel = 4;
    World::run(c, opts, [&](World &w) {
        Capture cap;
        auto *b0 = w.addBackend("b0");
        auto *b1 = w.addBackend("b1");
        w.addBackend("dead", "dc1", "", "127.0.0.1", true);
        w.ctl("MAP BACKEND ok b0");
        w.ctl("MAP BACKEND late b1");
        w.ctl("MAP BACKEND dead dead");
        int  port = w.listen();
        int  hp   = w.startHttp();
        bool auth = false;
        int  mode = 0;  // what the auth service says
        struct One {
            std::string             secret, repl;
            std::shared_ptr<Client> cl;
            std::string             vhost;
        };
        std::vector<One> all;
        std::vector<std::string> tokens;
        std::size_t done = 0, failed = 0, seen = 0;
        auto        leaked = [&](const std::string &text) {
            for (auto &t : tokens)
                if (contains(text, t))
                    return true;
            return false;
        };
        auto look = [&] {
            for (; seen < cap.lines.size(); ++seen)
                c.check(!leaked(cap.lines[seen].text), "a password is in the log (severity ", cap.lines[seen].severity, "): ", pbt::show(cap.lines[seen].text, 300));
            for (auto &o : all)
                c.check(!leaked(o.cl->close_.text), "a password is in a Close: ", o.cl->close_.text);
        };
        w.http = [&](const HttpReq &r) {
            std::size_t n = 0;
            One        *o = nullptr;
            for (auto &x : all)
                if (contains(r.body, x.secret)) {
                    ++n;
                    o = &x;
                }
            c.check(n == 1, "an auth request carries the credentials of ", n, " sessions");
            HttpAction a;
            Bytes      body;
            auto       pb = [](int f, const Bytes &v) { return Bytes(1, (char)(f << 3 | 2)) + Bytes(1, (char)v.size()) + v; };
            switch (mode) {
            case 0: body = pb(2, "fine"); break;
            case 1:
                o->repl = "Rpl" + std::to_string(tokens.size()) + "x" + c.text(8, "ABCDEFGHJKMNPQRSTUVWXYZ");
                tokens.push_back(o->repl);
                body = pb(3, pb(1, "PLAIN") + pb(2, Bytes("\0u\0", 3) + o->repl));
                break;
            case 2: body = Bytes("\x08\x01", 2) + pb(2, "no"); break;
            case 3: body = "\x0a\x7f"; break;
            }
            if (mode == 4) {
                a.dropNow = true;
                return a;
            }
            a.bytes = std::string("HTTP/1.1 ") + (mode == 5 ? "500 Oops" : "200 OK") + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
            return a;
        };
        auto ctl = [&](const std::string &l) {
            std::string r = w.ctl(l);
            c.check(!leaked(r), "the answer to ", l, " contains a password");
        };
        std::size_t steps = 3 + c.size(0, 27);
        bool        paused = false;
        for (std::size_t k = 0; k < steps; ++k) {
            switch (c.weighted({8, 3, 2, 2, 1, 1, 2, 1})) {
            case 0: {
                One o;
                o.vhost  = c.oneof<std::string>({"ok", "ok", "late", "dead", "nowhere"});
                o.secret = "Pw" + std::to_string(tokens.size()) + "x" + c.text(8, "ABCDEFGHJKMNPQRSTUVWXYZ");
                tokens.push_back(o.secret);
                LoginSpec sp = plainLogin(o.vhost);
                if (c.chance(1, 3)) {
                    sp.so.mechanism = "AMQPLAIN";
                    sp.so.response  = Bytes("\x05LOGINS\0\0\0\5guest\x08PASSWORDS\0\0\0", 30) + Bytes(1, (char)o.secret.size()) + o.secret;
                }
                else
                    sp.so.response = Bytes("\0user\0", 6) + o.secret;
                sp.cut      = genCutter(c);
                sp.pipeline = !c.flip();
                sp.legacy   = c.chance(1, 10);
                b1->closeAt = c.flip() ? S_NEVER : c.oneof<Step>({S_STARTOK, S_OPEN});
                b1->closeWith.code = 403;
                b1->closeWith.text = "ACCESS_REFUSED";
                b1->dropAt = c.chance(1, 4) ? S_OPEN : S_NEVER;
                o.cl = w.connect(port, sp);
                all.push_back(o);
                auto cl = o.cl;
                cl->begin();
                if (c.chance(1, 6)) {
                    for (std::size_t i = 0, n = c.below(30); i < n; ++i)
                        w.round();
                    if (c.flip())
                        cl->reset();
                    else
                        cl->close();
                    w.settle(4);
                    break;
                }
                w.settle(8);
                if (cl->isOpen)
                    ++done;
                else
                    ++failed;
                break;
            }
            case 1: ctl(c.oneof<std::string>({"SESSION 1", "CONN PRINT", "STAT PRINT overall human", "MAP PRINT", "LIMIT PRINT", "AUTH PRINT", "CONN", "BACKEND PRINT"})); break;
            case 2:
                auth = true;
                w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /a");
                mode = (int)c.below(6);
                break;
            case 3:
                auth = false;
                w.ctl("AUTH ALWAYS_ALLOW");
                break;
            case 4:
                if (paused)
                    ctl("VHOST UNPAUSE ok");
                else
                    ctl("VHOST PAUSE ok");
                paused = !paused;
                break;
            case 5: ctl(c.flip() ? "LIMIT CONN_RATE VHOST ok 1" : "LIMIT DISABLE CONN_RATE VHOST ok"); break;
            case 6: w.advance(c.oneof<int>({10, 800, 2000})); break;
            case 7: ctl("SESSION " + std::to_string(1 + c.below(all.size() + 1)) + " " + c.oneof<std::string>({"DISCONNECT_GRACEFUL", "FORCE_DISCONNECT", "PAUSE", "UNPAUSE"})); break;
            }
            look();
        }
        (void)auth;
        w.advance(2000);
        w.settle(6);
        look();
        // who got which secret
        for (auto &bc : w.allBrokerConns()) {
            std::size_t n = 0;
            for (auto &t : tokens)
                if (contains(bc->so.response, t))
                    ++n;
            c.check(n <= 1, "a broker connection carries ", n, " passwords");
        }
        (void)b0;
        if (done && failed)
            c.nontrivial();
    });
}
