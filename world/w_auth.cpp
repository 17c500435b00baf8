#include "scen.h"

// ------------------------------------------------------ protobuf by hand
static bool varint(const Bytes &b, std::size_t &p, uint64_t &v)
{
    v = 0;
    for (int sh = 0; sh < 64; sh += 7) {
        if (p >= b.size())
            return false;
        uint8_t x = (uint8_t)b[p++];
        v |= (uint64_t)(x & 127) << sh;
        if (!(x & 128))
            return true;
    }
    return false;
}
static void putVarint(Bytes &b, uint64_t v)
{
    while (v >= 128) {
        b += (char)(v | 128);
        v >>= 7;
    }
    b += (char)v;
}
static Bytes pbBytes(int field, const Bytes &v)
{
    Bytes b;
    putVarint(b, (uint64_t)field << 3 | 2);
    putVarint(b, v.size());
    return b + v;
}
static Bytes pbInt(int field, uint64_t v)
{
    Bytes b;
    putVarint(b, (uint64_t)field << 3);
    putVarint(b, v);
    return b;
}
static bool pbFields(const Bytes &b, std::map<int, Bytes> &out)
{
    std::size_t p = 0;
    while (p < b.size()) {
        uint64_t k, n;
        if (!varint(b, p, k))
            return false;
        if ((k & 7) == 2) {
            if (!varint(b, p, n) || n > b.size() - p)
                return false;
            out[(int)(k >> 3)] = b.substr(p, n);
            p += n;
        }
        else if ((k & 7) == 0) {
            if (!varint(b, p, n))
                return false;
        }
        else
            return false;
    }
    return true;
}

namespace {
enum Kind {
    ALLOW,
    ALLOW_REPLACE,
    DENY,
    BAD_RESULT,
    BAD_BODY,
    BAD_STATUS,
    TRUNCATED,
    NOT_HTTP,
    DROP,
    SILENT,
    REFUSED,
    UNRESOLVABLE
};
const char *kindName[] = {"allow", "allow with credentials", "deny", "invalid result", "undecodable body", "error status",
                          "truncated answer", "not HTTP", "dropped", "no answer", "service refuses connections",
                          "service name does not resolve"};
struct Plan {
    Kind                    kind;
    LoginSpec               sp;
    bool                    understands = false;  // authentication_failure_close
    std::string             reason, mech, creds;
    Bytes                   answer;
    bool                    close = true;
    std::shared_ptr<Client> cl;
    HttpConn               *conn = nullptr;
    bool                    answered = false;
    std::string             key;
    Cutter                  cut;
};
}

static std::string utf8(pbt::Ctx &c, std::size_t max)
{
    return c.text(c.size(0, max), "abcdefghijklmnopqrstuvwxyz /-._0123456789");
}

static Bytes respond(pbt::Ctx &c, Plan &p)
{
    Bytes body;
    auto  extra = [&] {
        // unknown fields are to be skipped
        if (c.chance(1, 6))
            body += pbBytes(9, c.bulk(5));
    };
    switch (p.kind) {
    case ALLOW:
    case ALLOW_REPLACE:
        if (c.flip())
            body += pbInt(1, 0);
        extra();
        if (!p.reason.empty())
            body += pbBytes(2, p.reason);
        if (p.kind == ALLOW_REPLACE) {
            Bytes s;
            if (!p.mech.empty() || c.flip())
                s += pbBytes(1, p.mech);
            if (!p.creds.empty() || c.flip())
                s += pbBytes(2, p.creds);
            body += pbBytes(3, s);
        }
        break;
    case DENY:
        body += pbInt(1, 1);
        extra();
        if (!p.reason.empty())
            body += pbBytes(2, p.reason);
        if (c.chance(1, 4))
            body += pbBytes(3, pbBytes(1, "PLAIN"));
        break;
    case BAD_RESULT:
        body += pbInt(1, c.oneof<uint64_t>({2, 3, 255, 0x7fffffff, ~0ull}));
        if (!p.reason.empty())
            body += pbBytes(2, p.reason);
        break;
    case BAD_BODY:
        switch (c.below(5)) {
        case 0: body = Bytes("\x0a\x7f") + "abc"; break;         // length beyond the end
        case 1: body = Bytes("\x12\x05") + "ab"; break;          // reason cut off
        case 2: body = Bytes("\x08"); break;                     // value missing
        case 3: body = "<html><body>502</body></html>"; break;
        default: body = Bytes("\x07\x07\x07"); break;            // no such wire type
        }
        break;
    case BAD_STATUS:
        if (c.flip())
            body += pbInt(1, 0);
        if (!p.reason.empty())
            body += pbBytes(2, p.reason);
        break;
    default: body = pbBytes(2, std::string(50, 'r')); break;
    }
    std::string status = "200 OK";
    if (p.kind == BAD_STATUS)
        status = c.oneof<std::string>({"500 Internal Server Error", "403 Forbidden", "404 Not Found", "302 Found", "503 Unavailable",
                                       "401 Unauthorized", "429 Too Many Requests"});
    Bytes h = "HTTP/1." + std::string(c.flip() ? "1 " : "0 ") + status + "\r\nContent-Type: application/octet-stream\r\n";
    if (p.kind == NOT_HTTP)
        p.close = true;
    if (p.kind == NOT_HTTP)
        return c.oneof<std::string>({"SSH-2.0-OpenSSH\r\n\r\n", "\x15\x03\x01\r\n\r\n", "HTTP/9.9 200\r\n\r\n", "\r\n", "allow"});
    switch (p.kind == TRUNCATED ? 0 : c.weighted({4, 1, 2})) {
    case 0: h += "Content-Length: " + std::to_string(body.size() + (p.kind == TRUNCATED ? 1 + c.below(20) : 0)) + "\r\n\r\n" + body; break;
    case 1:
        // body up to the end of the connection
        p.close = true;
        h += "Connection: close\r\n\r\n" + body;
        break;
    default:
        if (contains(h, "HTTP/1.0")) {
            h += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
            break;
        }
        h += "Transfer-Encoding: chunked\r\n\r\n";
        for (std::size_t i = 0; i < body.size();) {
            std::size_t n = std::min<std::size_t>(1 + c.below(40), body.size() - i);
            char        x[20];
            snprintf(x, sizeof x, "%zx\r\n", n);
            h += x + body.substr(i, n) + "\r\n";
            i += n;
        }
        h += "0\r\n\r\n";
    }
    if (p.kind == TRUNCATED) {
        p.close = true;
        // possibly cut inside the header
        if (c.chance(1, 3))
            h.resize(c.below(h.size()));
    }
    return h;
}

PBT_TARGET(auth_any,
           "1-4 clients with generated credentials and properties, answered by the auth service out of order with ALLOW, ALLOW with "
           "replacement credentials, DENY, invalid result, undecodable body, error status, truncation, garbage, drop, silence, "
           "or an unreachable or unresolvable service. Non-trivial: at least one allowed and one refused client.")
{
    World::run(c, {}, [&](World &w) {
        auto *b = w.addBackend("b0");
        w.ctl("FARM ADD f round-robin b0");
        w.ctl("MAP DEFAULT f");
        int         port  = w.listen();
        int         hp    = w.startHttp();
        std::string tgt   = "/" + c.text(c.size(0, 20), "abc/?=&.%20");
        int         dead  = World::freePort();
        std::vector<Plan> ps(1 + c.below(4));
        w.http = [&](const HttpReq &r) {
            HttpAction a;
            a.hold = true;
            c.check(r.method == "POST" && r.target == tgt, "the auth service was asked ", r.method, " ", r.target, " instead of POST ", tgt);
            std::map<int, Bytes> f, s;
            c.check(pbFields(r.body, f) && pbFields(f[2], s), "the auth request is not a well-formed message");
            for (auto &p : ps) {
                if (p.conn || !p.cl || s[2] != p.sp.so.response)
                    continue;
                c.check(f[1] == p.sp.vhost, "the auth request carries vhost ", pbt::show(f[1]), " instead of ", pbt::show(p.sp.vhost));
                c.check(s[1] == p.sp.so.mechanism, "the auth request carries mechanism ", pbt::show(s[1]), " instead of ",
                        pbt::show(p.sp.so.mechanism));
                p.conn = r.conn;
                if (p.kind == DROP) {
                    a.hold     = false;
                    a.dropNow  = true;
                    p.answered = true;
                }
                return a;
            }
            c.fail("the auth service was asked for credentials no waiting client sent, or twice for one");
            return a;
        };
        auto answerOne = [&]() {
            std::vector<Plan *> q;
            for (auto &p : ps)
                if (p.conn && !p.answered && p.kind != SILENT)
                    q.push_back(&p);
            if (q.empty())
                return;
            Plan &p    = *q[c.below(q.size())];
            p.answered = true;
            w.note("auth service answers ", p.key, ": ", kindName[p.kind]);
            p.conn->send(p.answer, p.cut);
            if (p.close)
                p.conn->closeWhenSent = true;
        };
        bool allowed = false, refused = false;
        for (std::size_t i = 0; i < ps.size(); ++i) {
            Plan &p = ps[i];
            p.kind  = (Kind)c.weighted({4, 5, 5, 2, 3, 3, 3, 2, 2, 1, 1, 1});
            c.label(kindName[p.kind]);
            if (p.kind == REFUSED)
                w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(dead) + " " + tgt);
            else if (p.kind == UNRESOLVABLE)
                w.ctl("AUTH SERVICE no.such.host " + std::to_string(hp) + " " + tgt);
            else
                w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " " + tgt);
            p.key              = "client" + std::to_string(i);
            p.sp               = plainLogin("vh" + c.text(c.size(0, 30), "abcdefghijk/ "));
            p.sp.so.mechanism  = c.oneof<std::string>({"PLAIN", "AMQPLAIN", "EXTERNAL"});
            p.sp.so.response   = p.key + c.bulk(c.size(0, 200));
            p.sp.so.props      = ref::genTable(c, 1, 3);
            p.sp.cut           = genCutter(c);
            p.sp.pipeline      = !c.flip();
            // how the client announces that it understands the refusal
            for (std::size_t k = 0; k < p.sp.so.props.size();)
                if (p.sp.so.props[k].first == "capabilities")
                    p.sp.so.props.erase(p.sp.so.props.begin() + k);
                else
                    ++k;
            ref::Value caps, v;
            caps.type = 'F';
            v.type    = 't';
            switch (c.weighted({4, 2, 1, 1, 1})) {
            case 0:
                v.raw         = Bytes(1, 1);
                p.understands = true;
                if (c.flip())
                    caps.tab.emplace_back("publisher_confirms", v);
                caps.tab.emplace_back("authentication_failure_close", v);
                break;
            case 1:
                v.raw = Bytes(1, 0);
                caps.tab.emplace_back("authentication_failure_close", v);
                break;
            case 2:
                v.type = 'S';
                v.raw  = "true";
                caps.tab.emplace_back("authentication_failure_close", v);
                break;
            case 3: caps.type = 'V'; break;
            case 4: caps.tab.emplace_back("other", v); caps.tab.back().second.raw = Bytes(1, 1); break;
            }
            if (p.understands || c.flip())
                p.sp.so.props.insert(p.sp.so.props.begin() + c.below(p.sp.so.props.size() + 1), {"capabilities", caps});
            p.reason = c.chance(1, 4) ? std::string(c.oneof<int>({254, 255, 256, 257, 600}), 'R') : utf8(c, 60);
            p.mech   = c.oneof<std::string>({"PLAIN", "EXTERNAL", "", "RABBIT-CR-DEMO"});
            p.creds  = c.bulk(c.size(0, 300));
            p.close  = c.flip();
            p.cut    = genCutter(c);
            p.answer = respond(c, p);
            w.note(p.key, " ", kindName[p.kind], p.understands ? " understands refusals" : "");
            p.cl = w.connect(port, p.sp);
            p.cl->begin();
            for (std::size_t k = 0, n = c.below(20); k < n; ++k)
                w.round();
            if (c.flip()) {
                w.settle(3);
                answerOne();
            }
        }
        w.settle(4);
        // nobody gets in unanswered
        for (auto &p : ps)
            if (!p.answered)
                c.check(!w.brokerOf(*p.cl) && !p.cl->isOpen, "a client got to a broker before the auth service answered");
        for (std::size_t i = 0; i < ps.size(); ++i) {
            answerOne();
            if (c.flip())
                w.settle(2);
        }
        auto fate = [&](Plan &p) { return p.cl->isOpen || p.cl->ended(); };
        w.until([&] {
            for (auto &p : ps)
                if (p.kind != SILENT && !fate(p))
                    return false;
            return true;
        }, 5);
        bool silent = false;
        for (auto &p : ps)
            silent |= p.kind == SILENT;
        if (silent) {
            for (auto &p : ps)
                if (p.kind == SILENT)
                    c.check(!p.cl->isOpen && !w.brokerOf(*p.cl), "a client got to a broker without any answer");
            w.advance(61000, 1000);
            w.settle(4);
        }
        std::size_t in = 0;
        for (auto &p : ps) {
            bool ok = p.kind == ALLOW || p.kind == ALLOW_REPLACE;
            auto br = w.brokerOf(*p.cl);
            if (ok) {
                allowed = true;
                ++in;
                c.check(p.cl->isOpen && br, "a client the auth service allowed did not get in: ", outcomeOf(*p.cl));
                std::string m = p.kind == ALLOW ? p.sp.so.mechanism : p.mech;
                std::string r = p.kind == ALLOW ? p.sp.so.response : p.creds;
                c.check(br->so.mechanism == m, "the broker got mechanism ", pbt::show(br->so.mechanism), " instead of ", pbt::show(m));
                c.check(br->so.response == r, "the broker got credentials ", pbt::show(br->so.response), " instead of ", pbt::show(r));
                c.check(br->op.vhost == p.sp.vhost, "the broker got vhost ", br->op.vhost);
                ref::Table want = ref::normalise(p.sp.so.props);
                bool       same = br->so.props.size() >= want.size();
                for (std::size_t k = 0; same && k < want.size(); ++k)
                    same = br->so.props[k] == want[k];
                c.check(same, "the client's properties changed on the way");
                std::size_t told = 0;
                for (std::size_t k = want.size(); k < br->so.props.size(); ++k)
                    if (br->so.props[k].first == "amqpprox_auth") {
                        ++told;
                        c.check(br->so.props[k].second.raw == p.reason, "the broker is told the reason ", pbt::show(br->so.props[k].second.raw));
                    }
                c.check(told == (p.kind == ALLOW_REPLACE && !p.reason.empty() ? 1 : 0), "the broker is told ", told, " reasons");
            }
            else {
                refused = true;
                c.check(!p.cl->isOpen, "a client was let in although the answer was: ", kindName[p.kind]);
                c.check(!br, "a broker connection was made although the answer was: ", kindName[p.kind]);
                c.check(p.cl->ended(), "a refused client (", kindName[p.kind], ") is left connected: ", outcomeOf(*p.cl));
                c.check(p.cl->gotClose == p.understands, "a refused client that ", p.understands ? "understands" : "does not understand",
                        " authentication failure got ", p.cl->gotClose ? "a Close" : "no Close", " (", kindName[p.kind], ")");
                if (p.cl->gotClose) {
                    c.check(p.cl->close_.code == 403, "refused with code ", p.cl->close_.code);
                    c.check(p.cl->close_.text.size() <= 255, "reason too long");
                    if (p.kind == DENY)
                        c.check(p.cl->close_.text == p.reason.substr(0, 255), "the reason given was ", pbt::show(p.cl->close_.text),
                                " instead of ", pbt::show(p.reason.substr(0, 255)));
                }
            }
        }
        c.check(b->count() == in, b->count(), " broker connections for ", in, " allowed clients");
        if (allowed && refused)
            c.nontrivial();
        // and without the service everybody gets in with what they sent
        if (c.chance(1, 3)) {
            w.ctl("AUTH ALWAYS_ALLOW");
            Sess s = openSession(w, port, plainLogin("x"));
            c.check(s.br->so.response == s.cl->spec.so.response, "credentials changed");
        }
    });
}

// A pause makes the proxy ask the service again
PBT_TARGET(auth_paused,
           "1-3 clients waiting for the auth service while their vhost is paused and unpaused; every request answered with ALLOW, with or without "
           "replacement credentials and a reason, sometimes with DENY. Non-trivial: the service was asked twice for one client.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.ctl("MAP BACKEND v b0");
        int port = w.listen(), hp = w.startHttp();
        struct One {
            std::shared_ptr<Client> cl;
            std::string             user;
            HttpConn               *conn  = nullptr;
            int                     asked = 0;
            bool                    denied = false;
            std::string             mech, creds, reason;  // what the last answer makes of it
        };
        std::vector<One> ones(1 + c.below(3));
        w.http = [&](const HttpReq &r) {
            HttpAction a;
            a.hold = true;
            std::map<int, Bytes> f, s;
            c.check(pbFields(r.body, f) && pbFields(f[2], s), "the auth request is not a well-formed message");
            for (auto &o : ones)
                if (s[2] == o.user) {
                    c.check(f[1] == "v" && s[1] == "PLAIN", "the auth request carries vhost ", pbt::show(f[1]), " and mechanism ", pbt::show(s[1]));
                    o.conn = r.conn;
                    ++o.asked;
                    return a;
                }
            c.fail("the auth service was asked about credentials no client sent: " + pbt::show(s[2]));
            return a;
        };
        w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /a");
        auto answer = [&](One &o) {
            if (!o.conn)
                return;
            Bytes body, sasl;
            o.mech   = "PLAIN";
            o.creds  = o.user;
            o.reason = "";
            o.denied = c.chance(1, 10);
            if (o.denied)
                body = pbInt(1, 1);
            if (c.chance(2, 3)) {
                o.mech  = c.oneof<std::string>({"PLAIN", "EXTERNAL"});
                o.creds = "new" + std::to_string(o.asked) + c.text(c.below(20), "xyz");
                body += pbBytes(3, pbBytes(1, o.mech) + pbBytes(2, o.creds));
                if (c.flip()) {
                    o.reason = "because" + std::to_string(o.asked);
                    body += pbBytes(2, o.reason);
                }
            }
            w.note("auth answers for ", o.user, o.denied ? ": deny" : ": allow with ", o.denied ? "" : o.creds);
            if (o.conn->fd >= 0) {
                o.conn->send("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body);
                o.conn->closeWhenSent = true;
            }
            o.conn = nullptr;
        };
        std::size_t next = 0;
        for (std::size_t k = 0, n = 4 + c.size(0, 20); k < n; ++k) {
            switch (c.weighted({3, 3, 3, 4})) {
            case 0:
                if (next < ones.size()) {
                    One &o           = ones[next];
                    o.user           = "user" + std::to_string(next++);
                    auto sp          = plainLogin("v");
                    sp.so.mechanism  = "PLAIN";
                    sp.so.response   = o.user;
                    o.cl             = w.connect(port, sp);
                    o.cl->begin();
                    w.settle(3);
                }
                break;
            case 1: w.ctl("VHOST PAUSE v"); break;
            case 2: w.ctl("VHOST UNPAUSE v"); w.settle(3); break;
            default:
                if (next) {
                    answer(ones[c.below(next)]);
                    if (c.flip())
                        w.settle(3);
                }
                break;
            }
        }
        w.settle(3);
        w.ctl("VHOST UNPAUSE v");
        w.settle(4);
        for (std::size_t i = 0; i < next; ++i) {
            answer(ones[i]);
            w.settle(4);
        }
        for (std::size_t i = 0; i < next; ++i) {
            auto &o  = ones[i];
            auto  br = w.brokerOf(*o.cl);
            if (o.asked > 1)
                c.nontrivial();
            if (o.denied) {
                c.check(o.cl->ended() && !o.cl->isOpen && !br, "a denied client got in");
                c.label("denied");
                continue;
            }
            if (o.cl->ended() && br)
                continue;  // was open when its vhost was paused
            c.check(o.cl->isOpen && br, "an allowed client did not get in: ", outcomeOf(*o.cl));
            c.check(br->so.mechanism == o.mech && br->so.response == o.creds, "the broker got credentials ", pbt::show(br->so.response), " by ",
                    br->so.mechanism, " instead of ", pbt::show(o.creds), " by ", o.mech);
            std::size_t told = 0;
            for (auto &f : br->so.props)
                if (f.first == "amqpprox_auth") {
                    ++told;
                    c.check(f.second.raw == o.reason, "the broker is told the reason ", pbt::show(f.second.raw));
                }
            c.check(told == (o.reason.empty() ? 0 : 1), "the broker is told ", told, " reasons");
            c.label(o.asked > 1 ? "asked again" : "asked once");
        }
    });
}
