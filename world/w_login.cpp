#include "scen.h"
#include <unistd.h>

static std::string hostName()
{
    char b[256] = {};
    gethostname(b, sizeof b - 1);
    return b;
}

// What the broker of an opened session must have been told.
static void checkBrokerSide(World &w, Client &cl, BrokerConn &br, const LoginSpec &sp, int port,
                            const std::string &srcIp, const char *what)
{
    pbt::Ctx &c = w.c;
    c.check(!br.bad, what, ": the broker received malformed bytes");
    c.check(br.header == ref::PROTOCOL_HEADER, what, ": protocol header ", pbt::hex(br.header));
    c.check(br.order == "11,31,40", what, ": the broker saw methods ", br.order);
    for (auto &f : br.frames)
        c.check(f.channel == 0, what, ": handshake frame on channel ", f.channel);
    c.check(br.so.mechanism == sp.so.mechanism, what, ": mechanism ", pbt::show(br.so.mechanism));
    c.check(br.so.response == sp.so.response, what, ": response differs");
    c.check(br.so.locale == sp.so.locale, what, ": locale ", pbt::show(br.so.locale));
    c.check(br.tok == sp.tok, what, ": TuneOk ", br.tok.channelMax, "/", br.tok.frameMax, "/", br.tok.heartbeat, " instead of ",
            sp.tok.channelMax, "/", sp.tok.frameMax, "/", sp.tok.heartbeat);
    c.check(br.op.vhost == sp.vhost, what, ": vhost ", pbt::show(br.op.vhost));
    ref::Table want = ref::normalise(sp.so.props);
    c.check(br.so.props.size() >= want.size(), what, ": client properties lost");
    ref::Table head(br.so.props.begin(), br.so.props.begin() + want.size()),
        tail(br.so.props.begin() + want.size(), br.so.props.end());
    c.check(head == want, what, ": client properties ", ref::show(head), " instead of ", ref::show(want));
    c.check(tail.size() == 2, what, ": ", tail.size(), " fields added: ", ref::show(tail));
    std::string wantClient = srcIp + ":" + std::to_string(cl.srcPort);
    std::string wantHost   = "(:" + std::to_string(port) + ") " + hostName() + ":" + std::to_string(br.remotePort());
    c.check(tail[0].first == "amqpprox_client" && tail[0].second.type == 'S' && tail[0].second.raw == wantClient, what,
            ": identification ", ref::show(tail), " should name ", wantClient);
    c.check(tail[1].first == "amqpprox_host" && tail[1].second.type == 'S' && tail[1].second.raw == wantHost, what,
            ": identification ", ref::show(tail), " should name ", wantHost);
}

static void checkClientSide(World &w, Client &cl, const Bytes &openOk, const char *what)
{
    pbt::Ctx &c = w.c;
    c.check(!cl.bad, what, ": the client received malformed bytes");
    c.check(cl.order == "10,30,41", what, ": the client saw methods ", cl.order);
    for (auto &f : cl.frames)
        c.check(f.channel == 0, what, ": handshake frame on channel ", f.channel);
    c.check(cl.start.major == 0 && cl.start.minor == 9, what, ": Start version");
    c.check(contains(" " + cl.start.mechanisms + " ", " PLAIN "), what, ": mechanisms ", cl.start.mechanisms);
    c.check(contains(" " + cl.start.locales + " ", " en_US "), what, ": locales ", cl.start.locales);
    c.check(cl.tune.frameMax >= 4096 && cl.tune.frameMax <= 150000, what, ": Tune frame-max ", cl.tune.frameMax);
    c.check(cl.openOkFrame == openOk, what, ": OpenOk is not the broker's own: ", pbt::hex(cl.openOkFrame), " instead of ",
            pbt::hex(openOk));
}

static Bytes genOpenOk(pbt::Ctx &c)
{
    return ref::connFrame(ref::OPENOK, ref::shortstr(ref::genName(c, 255)));
}

PBT_TARGET(login_any,
           "1-4 clients log in, possibly overlapping in time, with generated properties (all field types, nesting <= 3, "
           "up to 100 kB), credentials, tuning, vhost, segmentation and source address; broker handshake segmented too. "
           "Non-trivial: non-empty client properties and a completed login compared on both sides.")
{
    World::run(c, {}, [&](World &w) {
        auto *b  = w.addBackend("b0");
        b->cut   = genCutter(c);
        b->start.props = ref::genTable(c, 2, 5);
        b->start.mechanisms = ref::genName(c, 60);
        b->tune.channelMax  = (uint16_t)c.edgy(16);
        b->tune.frameMax    = (uint32_t)c.edgy(32);
        b->tune.heartbeat   = (uint16_t)c.edgy(16);
        b->openOk           = genOpenOk(c);
        w.ctl("FARM ADD f round-robin b0");
        w.ctl("MAP DEFAULT f");
        int         port = w.listen();
        std::size_t n    = 1 + c.size(0, 3);
        bool        overlap = n > 1 && c.flip();
        struct L {
            LoginSpec               sp;
            std::string             ip;
            std::shared_ptr<Client> cl;
        };
        std::vector<L> ls;
        for (std::size_t i = 0; i < n; ++i) {
            L l;
            l.sp = genLogin(c, ref::genName(c, 255));
            l.ip = "127.0.0." + std::to_string(1 + c.below(20));
            if (c.chance(1, 8)) {
                ref::Value v;
                v.type = c.flip() ? 'S' : 'x';
                v.raw  = c.bulk(c.below(100000));
                l.sp.so.props.emplace_back("big", v);
                c.label("big StartOk");
            }
            w.note("login vhost=", pbt::show(l.sp.vhost, 40), " props=", ref::show(l.sp.so.props).substr(0, 300));
            if (!l.sp.so.props.empty())
                c.nontrivial();
            l.cl = w.connect(port, l.sp, l.ip);
            l.cl->begin();
            if (!overlap)
                w.until([&] { return l.cl->isOpen || l.cl->ended() || l.cl->bad; });
            else
                for (std::size_t k = 0, m = c.below(6); k < m; ++k)
                    w.round();
            ls.push_back(l);
        }
        if (overlap)
            c.label("overlapping logins");
        w.until([&] {
            for (auto &l : ls)
                if (!l.cl->isOpen && !l.cl->ended() && !l.cl->bad)
                    return false;
            return true;
        });
        for (auto &l : ls) {
            c.check(l.cl->isOpen, "login not completed: ", outcomeOf(*l.cl));
            auto br = w.brokerOf(*l.cl);
            c.check((bool)br, "no broker connection names this client");
            checkBrokerSide(w, *l.cl, *br, l.sp, port, l.ip, "login");
            checkClientSide(w, *l.cl, b->openOk, "login");
            c.check(l.cl->data.empty() && br->data.empty(), "bytes beyond the handshake appeared");
        }
        c.check(b->count() == n, b->count(), " broker connections for ", n, " clients");
        for (auto &l : ls)
            c.check(!l.cl->ended(), "an open session was closed");
    });
}

PBT_TARGET(broker_refuses,
           "the broker answers a generated step of the login with Close (any code and text), or drops the connection there, or sends "
           "other methods instead of OpenOk and then drops it, under generated segmentation, plain or TLS, with another session open. "
           "Non-trivial: every case.")
{
    World::run(c, {}, [&](World &w) {
        bool tls = c.chance(1, 4);
        if (tls)
            w.setupTls();
        auto *b  = w.addBackend("b0", "dc1", tls && c.flip() ? " TLS" : "");
        auto *b2 = w.addBackend("b1");
        (void)b2;
        w.ctl("MAP BACKEND v b0");
        w.ctl("MAP BACKEND other b1");
        int               port  = w.listen();
        int               cport = tls && c.flip() ? w.listen(true) : 0;
        std::vector<Sess> ss;
        ss.push_back(openSession(w, port, plainLogin("other")));
        for (std::size_t k = 0, m = 1 + c.below(3); k < m; ++k) {
            b->cut  = genCutter(c);
            Step at = (Step)c.below(4);
            int  how = (int)c.weighted({6, 2, 2});
            if (how == 0) {
                b->closeAt        = at;
                b->closeWith.code = c.chance(1, 3) ? (uint16_t)c.below(65536) : (uint16_t)c.oneof<int>({530, 403, 404, 320, 541, 0, 65535, 200});
                b->closeWith.text = ref::genName(c, 255);
                b->closeWith.cls  = (uint16_t)c.oneof<int>({10, 0, 60});
                b->closeWith.meth = (uint16_t)c.oneof<int>({40, 0, 11});
                w.note("broker closes at step ", (int)at, " with ", b->closeWith.code, " ", pbt::show(b->closeWith.text));
                c.label("close at step " + std::to_string(at));
            }
            else if (how == 1) {
                b->dropAt = at;
                w.note("broker drops at step ", (int)at);
                c.label("drop at step " + std::to_string(at));
            }
            else {
                at       = S_OPEN;
                b->rawAt = S_OPEN;
                b->rawBytes.clear();
                for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i) {
                    int mt = c.oneof<int>({51, 60, 61, 42, 10, 20, 30, 11, 40, 31, 70});
                    b->rawBytes += ref::connFrame(mt, c.chance(1, 3) ? c.bytes(12) : mt == 51 ? Bytes() : Bytes(1, '\0'));
                    w.note("broker sends method ", mt, " instead of OpenOk");
                }
                c.label("other methods instead of OpenOk");
            }
            LoginSpec sp = genLogin(c, "v", false);
            auto      cl = w.connect(cport ? cport : port, sp, "", cport != 0);
            cl->begin();
            auto br0 = b->count();
            w.until([&] { return cl->ended() || cl->isOpen || cl->bad || (how == 2 && b->count() && b->last()->gotOpen); }, 3);
            w.settle();
            (void)br0;
            if (how == 2) {
                w.settle(4);
                c.check(!cl->isOpen, "the client was told the connection is open before the broker said so");
                if (b->last())
                    b->last()->close();
                w.until([&] { return cl->ended(); }, 3);
                w.settle();
            }
            c.nontrivial();
            c.check(!cl->isOpen, "the client was told the connection is open");
            c.check(!cl->bad, "malformed bytes to the client");
            c.check(cl->ended(), how == 0 ? "after the broker's Close the client is left connected" :
                    "after the broker dropped the connection the client is left connected", " (step ", (int)at, "): ", outcomeOf(*cl));
            if (how == 0) {
                c.check(cl->gotClose, "the broker's Close (step ", (int)at, ") was not passed on: ", outcomeOf(*cl));
                c.check(cl->close_.code == b->closeWith.code && cl->close_.text == b->closeWith.text, "the client got Close ",
                        cl->close_.code, " ", pbt::show(cl->close_.text), " instead of ", b->closeWith.code, " ",
                        pbt::show(b->closeWith.text));
            }
            else
                c.check(!cl->gotClose || cl->close_.code != 200, "a successful Close for a dropped broker");
            auto br = b->last();
            c.check((bool)br, "the broker was never contacted");
            w.until([&] { return br->ended() || !br->open(); }, 3);
            c.check(br->ended() || !br->open(), "the broker connection is left open");
            probe(w, ss[0], "another session after a refusal");
            b->closeAt = b->dropAt = b->rawAt = S_NEVER;
            // and a new client gets in when the broker accepts again
            if (c.flip()) {
                Sess s = openSession(w, cport ? cport : port, genLogin(c, "v", false), cport != 0);
                probe(w, s, "a session after an earlier refusal");
            }
        }
    });
}

// P19: the PROXY line
PBT_TARGET(proxy_any,
           "a farm of 1-5 backends with and without SEND-PROXY and TLS, static and DNS-named, IPv4 and IPv6, some refusing; 1-6 "
           "logins from generated source addresses over plain and secure ports. Non-trivial: a login to a SEND-PROXY backend.")
{
    World::run(c, {}, [&](World &w) {
        w.setupTls();
        std::size_t n   = 1 + c.below(5);
        std::string add = "FARM ADD f round-robin";
        std::vector<std::string> ip(n);
        for (std::size_t i = 0; i < n; ++i) {
            std::string name = "b" + std::to_string(i);
            ip[i]            = c.weighted({3, 2, 2}) == 2 ? "::1" : "127.0.0." + std::to_string(1 + c.below(3));
            bool  dns = c.chance(1, 3), proxy = c.chance(2, 3), tls = c.chance(1, 3);
            auto *b         = w.addBroker(ip[i], c.chance(1, 4));
            b->name         = name;
            b->tls          = tls;
            b->expectProxy  = proxy;
            std::string f1 = proxy ? (c.flip() ? " SEND-PROXY" : " send-proxy") : "", f2 = tls ? (c.flip() ? " TLS" : " tls") : "";
            std::string host = ip[i];
            if (dns) {
                host        = "h" + std::to_string(i) + ".dns";
                w.dns[host] = {};
                if (c.chance(1, 4))
                    w.dns[host].push_back({"127.0.0.9", World::freePort()});  // nobody there
                w.dns[host].push_back({ip[i], b->lis.port});
                c.label("DNS");
            }
            w.ctl(std::string("BACKEND ADD") + (dns ? "_DNS " : " ") + name + " dc " + host + " " + std::to_string(b->lis.port) +
                  (c.flip() ? f1 + f2 : f2 + f1));
            add += " " + name;
        }
        w.ctl(add);
        w.ctl("MAP FARM v f");
        int plain = w.listen(), secure = w.listen(true);
        std::vector<Sess> ss;
        for (std::size_t k = 0, m = 1 + c.below(6); k < m; ++k) {
            std::string src = "127.0." + std::to_string(c.below(3)) + "." + std::to_string(1 + c.below(254));
            bool        tls = c.flip();
            std::map<int, std::size_t> before;
            for (auto &b : w.brokers)
                before[b->index] = b->count();
            LoginSpec sp = plainLogin("v");
            sp.cut       = genCutter(c);
            auto cl      = w.login(tls ? secure : plain, sp, src, tls);
            bool any     = false;
            for (auto &b : w.brokers)
                any |= !b->refusing;
            if (!any) {
                c.check(!cl->isOpen, "harness: open without a broker");
                continue;
            }
            c.check(cl->isOpen, "login did not complete: ", outcomeOf(*cl));
            std::size_t fresh = 0;
            for (auto &b : w.brokers)
                for (std::size_t i = before[b->index]; i < b->count(); ++i) {
                    ++fresh;
                    auto        bc = b->conns()[i];
                    std::string v6 = b->lis.ip.find(':') != std::string::npos ? "::ffff:" : "";
                    std::string want = b->expectProxy ? std::string("PROXY TCP") + (v6.empty() ? "4 " : "6 ") + v6 + src + " " + b->lis.ip + " " + std::to_string(cl->srcPort) + " " + std::to_string(b->lis.port) + "\r\n" : "";
                    c.check(bc->proxyLine == want, "a ", b->expectProxy ? "SEND-PROXY" : "plain", " backend got ", pbt::show(bc->proxyLine), " instead of ", pbt::show(want));
                    c.check(bc->header == ref::PROTOCOL_HEADER && bc->isOpen, "after the PROXY line the login does not proceed as usual, header ", pbt::show(bc->header));
                    if (b->expectProxy) {
                        c.nontrivial();
                        c.label(v6.empty() ? "TCP4" : "TCP6");
                    }
                    if (b->tls)
                        c.label("TLS broker");
                }
            c.check(fresh == 1, fresh, " broker connections for one login");
            Sess s;
            s.cl = cl;
            s.br = w.brokerOf(*cl);
            c.check(s.br && s.br->isOpen, "no broker connection belongs to the open client");
            probe(w, s, "after the login");
            if (c.flip()) {
                cl->close();
                w.settle(2);
            }
        }
    });
}
