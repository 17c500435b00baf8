#include "scen.h"
#include <optional>

// ------------------------------------------------------- connection-rate limits
namespace {
struct Win {  // one possible state of a vhost's window
    bool    started = false;
    int64_t since   = 0;
    uint64_t count  = 0;
    bool operator<(const Win &o) const { return std::tie(started, since, count) < std::tie(o.started, o.since, o.count); }
};
struct VLimit {
    std::optional<uint64_t> own;
    std::set<Win>           wins;  // possible states of the enforced window
};
struct Refused {
    std::shared_ptr<Client> cl;
    int64_t                 at;
    std::string             vhost;
};
}

PBT_TARGET(connlimit_any,
           "up to 40 steps of LIMIT CONN_RATE/CONN_RATE_ALARM/DISABLE for three vhosts, one unmapped vhost and the default, bursts "
           "of logins and clock advances around the window edge; each login's fate compared with the set of fixed-window states "
           "the configuration allows. Non-trivial: at least one login refused and one admitted.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.ctl("BACKEND PRINT");
        std::vector<std::string> vhosts = {"v0", c.flip() ? "V0" : "v0/x", std::string(c.oneof<int>({3, 200, 230, 255}), 'q'), "unmapped"};
        for (int i = 0; i < 3; ++i)
            w.ctl("MAP BACKEND " + vhosts[i] + " b0");
        int                           port = w.listen();
        std::map<std::string, VLimit> m;
        std::optional<uint64_t>       def;
        std::vector<Refused>          pend;
        std::size_t                   nRef = 0, nAdm = 0;
        std::vector<std::shared_ptr<Client>> openOnes;
        auto limitOf = [&](const std::string &v) { return m[v].own ? m[v].own : def; };
        // the enforcement for v may have been restarted by a command
        auto restart = [&](const std::string &v) {
            Win fresh;
            m[v].wins.insert(fresh);  // starts with the next connection
            fresh.started = true;
            fresh.since   = vclock::nowMs();
            m[v].wins.insert(fresh);
        };
        auto settleRefused = [&]() {
            for (std::size_t i = 0; i < pend.size();) {
                Refused &r = pend[i];
                if (vclock::nowMs() - r.at < 800) {
                    if (vclock::nowMs() - r.at < 700)
                        c.check(!r.cl->isOpen, "a limited connection was opened");
                    ++i;
                    continue;
                }
                w.until([&] { return r.cl->ended(); }, 4);
                c.check(!r.cl->isOpen && !w.brokerOf(*r.cl), "a limited connection reached a broker");
                c.check(r.cl->gotClose, "a limited connection got no Close: ", outcomeOf(*r.cl));
                std::string text = "The connection for " + r.vhost + ", is limited";
                text             = text.substr(0, 250);
                c.check(r.cl->close_.code == 506, "a limited connection was closed with code ", r.cl->close_.code);
                c.check(r.cl->close_.text.substr(0, text.size()) == text, "the Close of a limited connection says: ", r.cl->close_.text);
                c.check(r.cl->ended(), "a limited connection was not disconnected");
                pend.erase(pend.begin() + i);
            }
        };
        auto pass = [&](int64_t ms) {
            w.advance(ms);
            settleRefused();
        };
        auto attempt = [&](const std::string &v) {
            bool mapped = v != "unmapped";
            auto lim    = limitOf(v);
            std::set<Win> adm, ref;
            int64_t       now = vclock::nowMs();
            if (lim) {
                if (m[v].wins.empty())
                    restart(v);
                for (Win s : m[v].wins) {
                    if (!s.started || now - s.since >= 1000) {
                        s.started = true;
                        s.since   = now;
                        s.count   = 0;
                    }
                    if (s.count < *lim) {
                        ++s.count;
                        adm.insert(s);
                    }
                    else
                        ref.insert(s);
                }
            }
            bool canAdm = !lim || !adm.empty(), canRef = !ref.empty();
            std::size_t bc = w.brokerConnCount();
            auto        cl = w.connect(port, plainLogin(v));
            cl->begin();
            auto decided = [&] { return cl->isOpen || cl->gotClose || cl->ended(); };
            w.until([&] { return cl->sentTuneOk; }, 4);
            if (canRef)
                w.settle(5);
            else
                w.until(decided, 4);
            bool admitted;
            if (mapped)
                admitted = cl->isOpen || w.brokerConnCount() > bc;
            else
                admitted = cl->gotClose;
            c.check(admitted || !decided(), "login for ", v, " ended at once: ", outcomeOf(*cl));
            w.note("login for ", v.substr(0, 8), " ", admitted ? "admitted" : "refused", " limit ", lim ? (long long)*lim : -1LL);
            c.check(!admitted || canAdm, "a connection for ", v.substr(0, 20), " was admitted beyond its limit of ", lim ? *lim : 0,
                    " per second");
            c.check(admitted || canRef, "a connection for ", v.substr(0, 20), " was refused although ",
                    lim ? "its limit is not reached" : "it has no limit");
            if (admitted) {
                if (lim)
                    m[v].wins = adm;
                ++nAdm;
                if (mapped) {
                    w.until([&] { return cl->isOpen; }, 4);
                    c.check(cl->isOpen, "an admitted login did not complete: ", outcomeOf(*cl));
                    openOnes.push_back(cl);
                    if (openOnes.size() > 12) {
                        openOnes.front()->close();
                        openOnes.erase(openOnes.begin());
                    }
                }
                else
                    c.check(contains(cl->close_.text, "mapping"), "an unmapped vhost was told: ", cl->close_.text);
            }
            else {
                m[v].wins = ref;
                pend.push_back({cl, now, v});
                ++nRef;
            }
        };
        std::size_t steps = 4 + c.size(0, 36);
        for (std::size_t k = 0; k < steps; ++k) {
            const std::string &v = c.pick(vhosts);
            switch (c.weighted({6, 4, 4, 2, 2, 1, 1, 1, 1})) {
            case 0:
                for (std::size_t i = 0, n = 1 + c.below(5); i < n; ++i)
                    attempt(v);
                break;
            case 1: pass(c.oneof<int>({1, 100, 249, 250, 400, 750, 999, 1000, 1001, 1700})); break;
            case 2: {
                uint64_t n = c.oneof<uint64_t>({1, 2, 3, 0, 5, 4294967295u});
                w.ctl("LIMIT CONN_RATE VHOST " + v + " " + std::to_string(n));
                m[v].own = n;
                restart(v);
                break;
            }
            case 3: {
                uint64_t n = c.oneof<uint64_t>({2, 1, 3, 0, 5, 4294967295u});
                w.ctl("LIMIT CONN_RATE DEFAULT " + std::to_string(n));
                def = n;
                for (auto &x : vhosts)
                    if (!m[x].own)
                        restart(x);
                break;
            }
            case 4:
                w.ctl("LIMIT DISABLE CONN_RATE VHOST " + v);
                m[v].own.reset();
                restart(v);
                break;
            case 5:
                w.ctl("LIMIT DISABLE CONN_RATE DEFAULT");
                def.reset();
                for (auto &x : vhosts)
                    if (!m[x].own)
                        m[x].wins.clear();
                break;
            case 6:
                w.ctl(std::string("LIMIT CONN_RATE_ALARM ") + (c.flip() ? "VHOST " + v : std::string("DEFAULT")) + " " +
                      std::to_string(c.below(3)));
                c.label("alarm only");
                break;
            case 7:
                w.ctl(std::string("LIMIT DISABLE CONN_RATE_ALARM ") + (c.flip() ? "VHOST " + v : std::string("DEFAULT")));
                break;
            case 8: w.ctl(c.flip() ? "LIMIT PRINT" : "LIMIT PRINT " + v); break;
            }
        }
        pass(2000);
        pass(1000);
        c.check(pend.empty(), "internal");
        for (auto &cl : openOnes)
            c.check(!cl->ended(), "an admitted session was closed");
        if (nRef && nAdm)
            c.nontrivial();
    });
}

// ------------------------------------------------------------- data-rate limits
namespace {
constexpr uint64_t NOLIM = ~0ull;
struct DLim {
    std::map<std::string, uint64_t> own;
    uint64_t                        def = NOLIM;
    uint64_t of(const std::string &v) const
    {
        auto it = own.find(v);
        return it == own.end() ? def : it->second;
    }
};
}

PBT_TARGET(datalimit_any,
           "1-3 sessions (plain or TLS) on two vhosts; phases of LIMIT DATA_RATE commands (vhost, default, disable, other vhosts, "
           "alarms) each followed by seconds of greedy sending in which the bytes taken are bounded above and below, downstream "
           "traffic must not wait, and everything must arrive at the end. Non-trivial: a phase with a limit that held a client back.")
{
    World::run(c, {}, [&](World &w) {
        w.setupTls();
        w.addBackend("b0");
        w.ctl("MAP BACKEND v0 b0");
        w.ctl("MAP BACKEND v1 b0");
        int port = w.listen(), sport = w.listen(true);
        DLim lim;
        bool throttled = false;
        std::vector<Sess> ss;
        auto randomLimitCommand = [&]() {
            std::string v = c.flip() ? "v0" : "v1";
            uint64_t    n = c.oneof<uint64_t>({1000, 5000, 1, 20000, 100, 3000});
            switch (c.weighted({5, 4, 3, 2, 2, 1})) {
            case 0:
                w.ctl("LIMIT DATA_RATE VHOST " + v + " " + std::to_string(n));
                lim.own[v] = n;
                break;
            case 1:
                w.ctl("LIMIT DATA_RATE DEFAULT " + std::to_string(n));
                lim.def = n;
                break;
            case 2:
                w.ctl("LIMIT DISABLE DATA_RATE VHOST " + v);
                lim.own.erase(v);
                break;
            case 3:
                w.ctl("LIMIT DISABLE DATA_RATE DEFAULT");
                lim.def = NOLIM;
                break;
            case 4:
                w.ctl("LIMIT DATA_RATE_ALARM " + (c.flip() ? "VHOST " + v : std::string("DEFAULT")) + " " + std::to_string(n));
                c.label("alarm");
                break;
            case 5:
                w.ctl("LIMIT DISABLE DATA_RATE_ALARM " + (c.flip() ? "VHOST " + v : std::string("DEFAULT")));
                break;
            }
        };
        for (std::size_t i = 0, n = c.below(2); i < n; ++i)
            randomLimitCommand();
        std::size_t ns = 1 + c.below(3);
        for (std::size_t i = 0; i < ns; ++i) {
            bool      tls = c.chance(1, 3);
            LoginSpec sp  = plainLogin(c.flip() ? "v0" : "v1");
            auto      cl  = w.connect(tls ? sport : port, sp, "", tls);
            cl->begin();
            for (int k = 0; k < 40 && !cl->isOpen && !cl->ended(); ++k) {
                w.settle(4);
                if (!cl->isOpen)
                    w.advance(500);
            }
            c.check(cl->isOpen, "a login under data limits did not complete: ", outcomeOf(*cl));
            Sess s;
            s.cl    = cl;
            s.br    = w.brokerOf(*cl);
            s.vhost = sp.vhost;
            c.check(s.br != nullptr, "internal: no broker connection");
            s.br->data.clear();
            s.cl->data.clear();
            ss.push_back(s);
            if (tls)
                c.label("TLS");
        }
        auto frameOf = [&](std::size_t n, char x) {
            ref::Frame f;
            f.type    = 3;
            f.channel = 1;
            f.payload = Bytes(n, x);
            return ref::encFrame(f);
        };
        char tag = 'a';
        std::size_t phases = 1 + c.below(4);
        for (std::size_t ph = 0; ph < phases; ++ph) {
            for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i)
                randomLimitCommand();
            // within a second the new limit rules
            w.advance(1001, 100);
            w.settle(4);
            // long runs tell a rate that is only somewhat too high
            std::size_t secs = c.chance(1, 6) ? 8 + c.below(8) : 2 + c.below(3);
            struct Run {
                std::size_t chunk, sent0, got0;
                bool        blocked = false;
                uint64_t    L;
                std::size_t attempts = 0;
            };
            std::vector<Run> runs;
            for (auto &s : ss) {
                Run r;
                r.chunk = 8 + c.oneof<std::size_t>({500, 100, 2000, 8000, 0});
                r.L     = lim.of(s.vhost);
                r.got0  = s.br->data.size();
                r.sent0 = s.up.whole.size();
                runs.push_back(r);
                // nothing may be left over from the previous phase for exact bounds
            }
            for (std::size_t t = 0; t < secs * 4; ++t) {
                for (std::size_t i = 0; i < ss.size(); ++i) {
                    Sess &s = ss[i];
                    Run  &r = runs[i];
                    // greedy: the next chunk as soon as the previous one is there
                    std::size_t cap = r.L == NOLIM ? 3 : 4 + (r.L * 3) / r.chunk;
                    for (std::size_t k = 0; k < cap && k < 400; ++k) {
                        if (s.br->data.size() < s.up.whole.size()) {
                            w.settle(4);
                            if (s.br->data.size() < s.up.whole.size())
                                break;
                        }
                        Bytes b = frameOf(r.chunk - 8, tag);
                        tag     = tag == 'z' ? 'a' : tag + 1;
                        s.cl->send(b);
                        s.up.whole += b;
                        ++r.attempts;
                        if (r.L == NOLIM) {
                            w.until([&] { return s.br->data.size() >= s.up.whole.size(); }, 3);
                            c.check(s.br->data.size() >= s.up.whole.size(), "data of a session of ", s.vhost,
                                    ", which has no data limit, was held back");
                        }
                    }
                    if (s.br->data.size() < s.up.whole.size())
                        r.blocked = true;
                    if (t % 3 == 0) {
                        Bytes b = frameOf(c.below(3000), tag);
                        ss[i].br->send(b);
                        s.down.whole += b;
                        w.until([&] { return s.cl->data.size() >= s.down.whole.size(); }, 3);
                        c.check(s.cl->data.size() == s.down.whole.size(), "data from the broker was held back by a data limit on ",
                                s.vhost);
                    }
                }
                w.advance(250, 50);
                w.settle(4);
            }
            for (std::size_t i = 0; i < ss.size(); ++i) {
                Sess    &s   = ss[i];
                Run     &r   = runs[i];
                uint64_t got = s.br->data.size() - r.got0;
                w.note(s.vhost, " limit ", r.L, " chunk ", r.chunk, " took ", got, " in ", secs, " s", r.blocked ? " blocked" : "");
                if (r.L == NOLIM)
                    continue;
                uint64_t most = (secs + 2) * (r.L + r.chunk) + (r.sent0 - std::min<uint64_t>(r.sent0, r.got0));
                c.check(got <= most, "a session of ", s.vhost, " limited to ", r.L, " bytes/s sent ", got, " bytes in ", secs,
                        " seconds, in pieces of ", r.chunk);
                uint64_t least = r.L * (secs - 1);
                if (r.blocked && least > 0)
                    c.check(got >= std::min<uint64_t>(least, r.attempts * r.chunk - r.chunk), "a session of ", s.vhost, " limited to ", r.L,
                            " bytes/s got only ", got, " bytes through in ", secs, " seconds");
                if (r.blocked)
                    throttled = true;
            }
        }
        // drain: the rest of each session within what its limit needs
        for (int k = 0; k < 400; ++k) {
            bool all = true;
            for (auto &s : ss)
                all &= s.br->data.size() >= s.up.whole.size();
            if (all)
                break;
            w.advance(250, 250);
            w.settle(3);
        }
        for (auto &s : ss) {
            c.check(s.br->data == s.up.whole, "under data limits the broker got ", s.br->data.size(), " of ", s.up.whole.size(),
                    " bytes", s.br->data.size() == s.up.whole.size() ? ", altered" : "");
            c.check(s.cl->data == s.down.whole, "downstream data altered");
            c.check(!s.cl->ended() && !s.br->ended(), "a session under data limits was closed");
        }
        if (throttled)
            c.nontrivial();
    });
}
