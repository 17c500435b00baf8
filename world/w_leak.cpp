// P29: what a session, a command or a failure took up is given back.
#include "scen.h"

#include <amqpprox_control.h>
#include <amqpprox_server.h>

#include <boost/asio/strand.hpp>

#include <dirent.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include <sanitizer/allocator_interface.h>

namespace {
struct A {
    int         kind;
    unsigned    n, step;
    Bytes       data;
};
const char *KINDS[] = {"login, traffic, client closes", "login, broker closes", "login, client resets", "unmapped vhost", "all backends refuse",
                       "failover", "silent client", "wrong header", "garbage", "broker says Close", "broker drops", "unresolvable backend",
                       "held login, client leaves", "held login, released", "forced disconnect", "graceful disconnect", "denied", "auth service fails",
                       "limited", "commands", "statistics stream", "port opened and closed", "statistics sent", "configuration made and removed",
                       "half a command", "unfinished frame", "TLS login", "TLS handshake fails", "backend disconnect", "paused session, client leaves",
                       "silent auth service"};
const int   NKINDS  = sizeof KINDS / sizeof *KINDS;

std::size_t openFds(std::string *what = nullptr)
{
    DIR        *d = opendir("/proc/self/fd");
    std::size_t n = 0;
    while (auto *e = readdir(d)) {
        if (e->d_name[0] == '.')
            continue;
        ++n;
        if (what) {
            char        b[256] = {};
            std::string p      = std::string("/proc/self/fd/") + e->d_name;
            if (readlink(p.c_str(), b, sizeof b - 1) > 0)
                *what += std::string(e->d_name) + "=" + b + " ";
        }
    }
    closedir(d);
    return n - 1;
}

struct Run {
    World    &w;
    pbt::Ctx &c;
    int       port = 0, tlsPort = 0, httpPort = 0;
    Broker   *good, *moody;

    explicit Run(World &world)
    : w(world)
    , c(world.c)
    {
    }

    std::shared_ptr<Peer> ctlPeer(const std::string &bytes)
    {
        auto p        = std::make_shared<Peer>();
        p->fd         = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a = {};
        a.sun_family  = AF_UNIX;
        strncpy(a.sun_path, w.sock.c_str(), sizeof(a.sun_path) - 1);
        if (::connect(p->fd, (sockaddr *)&a, sizeof a))
            c.fail("control socket refused the connection");
        fcntl(p->fd, F_SETFL, O_NONBLOCK);
        p->send(bytes);
        w.others.push_back(p);
        return p;
    }
    std::string idOf(Client &cl)
    {
        for (auto &l : lines(w.ctl("CONN")))
            if (contains(l, "ingressRemote=" + cl.srcIp + ":" + std::to_string(cl.srcPort) + " "))
                for (auto &t : words(l))
                    if (t.rfind("id=", 0) == 0)
                        return t.substr(3);
        c.fail("CONN does not list a live client");
    }
    std::shared_ptr<Client> begin(const char *v, bool tls = false)
    {
        auto cl = w.connect(tls ? tlsPort : port, plainLogin(v), "", tls);
        cl->begin();
        w.settle(5);
        return cl;
    }
    std::shared_ptr<Client> open(const char *v, bool tls = false)
    {
        auto cl = begin(v, tls);
        w.until([&] { return cl->isOpen || cl->ended() || cl->bad; });
        c.check(cl->isOpen, "login not completed: ", outcomeOf(*cl));
        return cl;
    }
    void traffic(Client &cl, const A &a)
    {
        auto        br = w.brokerOf(cl);
        std::string f;
        for (unsigned i = 0; i < a.n; ++i)
            f += ref::encFrame(ref::Frame{3, 1, a.data});
        if (br) {
            cl.send(f);
            br->send(f);
        }
        w.settle(3);
    }
    void one(const A &a)
    {
        switch (a.kind) {
        case 0: {
            auto cl = open("v");
            traffic(*cl, a);
            cl->close();
            break;
        }
        case 1: {
            auto cl = open("v");
            traffic(*cl, a);
            w.brokerOf(*cl)->close();
            w.settle(3);
            break;
        }
        case 2: {
            auto cl = open("v");
            traffic(*cl, a);
            cl->reset();
            break;
        }
        case 3: begin("nowhere"); break;
        case 4: begin("dead"); break;
        case 5: open("failover")->close(); break;
        case 6: w.connect(port, plainLogin("v")); w.settle(2); break;
        case 7: {
            auto cl = w.connect(port, plainLogin("v"));
            cl->send("HTTP/1.1");
            w.settle(3);
            break;
        }
        case 8: {
            auto cl      = w.connect(port, plainLogin("v"));
            cl->automatic = false;
            cl->send(ref::PROTOCOL_HEADER);
            w.settle(3);
            cl->send(a.data);
            w.settle(3);
            break;
        }
        case 9:
            moody->closeAt = (Step)a.step;
            begin("moody");
            w.settle(2);
            moody->closeAt = S_NEVER;
            break;
        case 10:
            moody->dropAt = (Step)a.step;
            begin("moody");
            w.settle(2);
            moody->dropAt = S_NEVER;
            break;
        case 11: begin("lost"); break;
        case 12: {
            w.ctl("VHOST PAUSE held");
            auto cl = begin("held");
            cl->close();
            w.settle(3);
            w.ctl("VHOST UNPAUSE held");
            break;
        }
        case 13: {
            w.ctl("VHOST PAUSE held");
            auto cl = begin("held");
            w.ctl("VHOST UNPAUSE held");
            w.until([&] { return cl->isOpen || cl->ended(); }, 2);
            c.check(cl->isOpen, "a released login does not complete");
            cl->close();
            break;
        }
        case 14: w.ctl("SESSION " + idOf(*open("v")) + " FORCE_DISCONNECT"); break;
        case 15: w.ctl("SESSION " + idOf(*open("v")) + " DISCONNECT_GRACEFUL"); break;
        case 16:
        case 17:
        case 30: {
            int kind = a.kind;
            w.http   = [kind](const HttpReq &) {
                HttpAction  r;
                std::string body("\x08\x01\x12\x01r", 5);
                r.bytes   = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n" + body;
                r.dropNow = kind == 17;
                r.hold    = kind == 30;
                return r;
            };
            w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(a.step == 0 && kind == 17 ? 1 : httpPort) + " /t");
            auto cl = begin("v");
            if (kind == 30 && a.step)
                cl->close();
            w.advance(kind == 30 ? 40000 : 500, 1000);
            w.settle(3);
            w.ctl("AUTH ALWAYS_ALLOW");
            break;
        }
        case 18: {
            w.ctl("LIMIT CONN_RATE VHOST limited 0");
            auto cl = begin("limited");
            if (a.step == 0)
                cl->close();
            w.advance(1000, 200);
            w.settle(2);
            break;
        }
        case 19:
            for (const char *x : {"HELP", "CONN", "FARM PRINT", "MAP PRINT", "TLS INGRESS CIPHERS PRINT", "LIMIT PRINT x", "NONSENSE", "VHOST PRINT", "LOG CONSOLE 0"})
                w.ctl(x);
            break;
        case 20: {
            auto p = ctlPeer(a.step & 1 ? "STAT LISTEN json\n" : "STAT LISTEN human all\n");
            w.settle(2);
            w.advance(5000, 1000);
            w.settle(2);
            p->close();
            w.settle(2);
            break;
        }
        case 21: {
            int p = World::freePort();
            w.ctl("LISTEN START " + std::to_string(p));
            w.settle(2);
            auto cl = w.connect(p, plainLogin("v"));
            if (a.step & 1) {
                cl->begin();
                w.until([&] { return cl->isOpen; }, 1);
            }
            w.ctl("LISTEN STOP " + std::to_string(p));
            w.settle(2);
            break;
        }
        case 22:
            w.ctl("STAT SEND 127.0.0.1 " + std::to_string(World::freePort()));
            w.advance(5000, 1000);
            w.ctl("STAT STOP SEND");
            break;
        case 23:
            for (const char *x : {"FARM ADD xf round-robin good moody", "FARM PARTITION xf datacenter-affinity",
                                  "MAP FARM xv xf", "MAP BACKEND xw good", "LIMIT CONN_RATE VHOST xv 5", "LIMIT DATA_RATE VHOST xv 5", "LIMIT DISABLE CONN_RATE VHOST xv",
                                  "LIMIT DISABLE DATA_RATE VHOST xv", "MAP UNMAP xv", "MAP UNMAP xw", "FARM DELETE xf"})
                w.ctl(x);
            break;
        case 24: {
            auto p = ctlPeer("FARM PRI");
            w.settle(2);
            p->close();
            w.settle(1);
            break;
        }
        case 25: {
            auto cl = open("v");
            auto f  = ref::encFrame(ref::Frame{3, 1, Bytes(1000, 'x')});
            cl->send(f.substr(0, 600));
            w.settle(2);
            if (a.step & 1)
                cl->close();
            else
                w.brokerOf(*cl)->close();
            break;
        }
        case 26: {
            auto cl = open("v", true);
            traffic(*cl, a);
            if (a.step & 1)
                cl->close();
            else
                cl->reset();
            break;
        }
        case 27: {
            auto cl = w.connect(tlsPort, plainLogin("v"));
            cl->send(a.data);
            w.settle(3);
            cl->close();
            break;
        }
        case 28: w.ctl("VHOST BACKEND_DISCONNECT v"), open("v"), w.ctl("VHOST BACKEND_DISCONNECT v"); break;
        case 29: {
            auto cl = open("held");
            w.ctl("VHOST PAUSE held");
            cl->close();
            w.settle(2);
            w.ctl(a.step & 1 ? "VHOST UNPAUSE held" : "VHOST FORCE_DISCONNECT held");
            w.settle(2);
            w.ctl("VHOST UNPAUSE held");
            break;
        }
        }
    }
    void quiet()
    {
        for (int i = 0; i < 2; ++i) {
            for (auto &x : w.clients)
                x->close();
            for (auto &b : w.brokers)
                for (auto &x : b->conns())
                    x->close();
            for (auto &x : w.others)
                x->close();
            if (w.httpLis)
                for (auto &x : w.httpLis->conns)
                    x->close();
            w.advance(3000, 500);
            w.settle(4);
        }
        w.clients.clear();
        w.clients.shrink_to_fit();
        w.others.clear();
        w.others.shrink_to_fit();
        for (auto &b : w.brokers) {
            b->lis.conns.clear();
            b->lis.conns.shrink_to_fit();
        }
        if (w.httpLis) {
            w.httpLis->conns.clear();
            w.httpLis->conns.shrink_to_fit();
        }
        w.httpReqs.clear();
        w.httpReqs.shrink_to_fit();
        w.lookups.clear();
        w.lookups.shrink_to_fit();
    }
};
}

PBT_TARGET(leak_any,
           "a generated list of 1-6 of 31 kinds of sessions, failures and commands is gone through again and again, with everything ended after each "
           "round; from the second round on the process must not hold more open files, sessions or memory than the round before. Non-trivial: every "
           "case.")
{
    std::vector<A> as;
    for (std::size_t i = 0, n = 1 + c.below(6); i < n; ++i) {
        A a;
        a.kind = (int)c.below(NKINDS);
        a.n    = (unsigned)c.below(4);
        a.step = (unsigned)c.below(4);
        a.data = c.bulk(c.oneof<std::size_t>({1, 20, 3000, 40000}));
        as.push_back(a);
    }
    World::run(c, {}, [&](World &w) {
        Run  r(w);
        bool tls = false;
        for (auto &a : as) {
            w.note(KINDS[a.kind], " n=", a.n, " step=", a.step, " data=", a.data.size());
            tls |= a.kind == 26 || a.kind == 27;
            c.label(KINDS[a.kind]);
        }
        c.nontrivial();
        w.setupTls();
        r.good  = w.addBackend("good");
        r.moody = w.addBackend("moody");
        w.addBackend("dead1", "dc1", "", "127.0.0.1", true);
        w.addBackend("dead2", "dc1", "", "127.0.0.1", true);
        w.ctl("BACKEND ADD_DNS lost dc1 nobody.dns 5672");
        w.ctl("FARM ADD f1 round-robin dead1 dead2");
        w.ctl("FARM ADD f2 round-robin dead1 good");
        for (const char *x : {"v good", "held good", "limited good", "moody moody", "lost lost"})
            w.ctl(std::string("MAP BACKEND ") + x);
        w.ctl("MAP FARM dead f1");
        w.ctl("MAP FARM failover f2");
        r.port     = w.listen();
        r.tlsPort  = w.listen(true);
        r.httpPort = w.startHttp();
        // asio's strands share 193 mutexes, each made when first used
        for (int i = 0; i < 400; ++i) {
            boost::asio::make_strand(w.server->ioContext());
            boost::asio::make_strand(w.control->ioContext());
        }
        // a growth is only believed if it goes on through every further round
        const int   rounds = 10;
        std::size_t fds[rounds], mem[rounds];
        bool        moreFds = true, moreMem = true;
        for (int k = 0; k < rounds && (moreFds || moreMem); ++k) {
            for (auto &a : as)
                r.one(a);
            r.quiet();
            auto conn = w.ctl("CONN");
            c.check(!contains(conn, "ingressRemote"), "sessions are still listed after everything has ended: ", pbt::show(conn, 400));
            fds[k]       = openFds();
            mem[k]       = __sanitizer_get_current_allocated_bytes();
            c.traceLines = 1 << 30;
            if (k >= 2) {
                moreFds = moreFds && fds[k] > fds[k - 1];
                moreMem = moreMem && mem[k] > mem[k - 1];
            }
        }
        c.check(!moreMem, "the memory in use grows from round to round: ", mem[1], " ", mem[2], " ", mem[3], " ... ", mem[rounds - 1]);
        if (moreFds) {
            std::string what;
            openFds(&what);
            c.fail("open files grow from round to round: " + std::to_string(fds[1]) + " to " + std::to_string(fds[rounds - 1]) + ": " + what);
        }
    });
}
