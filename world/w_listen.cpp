#include "scen.h"
#include "sysnet.h"
#include <cerrno>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

// 0 closed, 1 plain, 2 secure
static void checkPort(World &w, int port, int mode, const char *when)
{
    pbt::Ctx &c = w.c;
    for (int k = 0; k < 2; ++k) {
        for (int tls = 0; tls < 2; ++tls) {
            auto cl = w.connect(port, plainLogin("v"), "", tls);
            cl->begin();
            w.until([&] { return cl->isOpen || cl->ended() || cl->bad || cl->err; }, mode == 0 ? 2 : 2);
            const char *as = tls ? "TLS" : "plain";
            if (mode == 0)
                c.check(cl->err == ECONNREFUSED, when, ": port ", port, " should not be listening, a ", as, " client got ", outcomeOf(*cl));
            else if ((mode == 2) == (tls == 1)) {
                c.check(cl->isOpen, when, ": a ", as, " login on ", mode == 2 ? "secure" : "plain", " port ", port,
                        " did not complete: ", outcomeOf(*cl), cl->err == ECONNREFUSED ? " (refused)" : "");
            }
            else {
                c.check(cl->err != ECONNREFUSED, when, ": port ", port, " is not listening");
                c.check(!cl->isOpen && !cl->gotStart && !cl->sslDone, when, ": a ", as, " client was served on a ",
                        mode == 2 ? "secure" : "plain", " port");
            }
            cl->close();
            if (mode == 0)
                break;
        }
        if (mode == 0)
            break;
    }
    w.settle(2);
}

PBT_TARGET(listen_any,
           "up to 16 LISTEN START/START_SECURE/STOP/STOP-all commands over 3 ports plus one taken by another program, spaced out "
           "or back to back, with a session open; each port's behaviour compared with a model. Non-trivial: at least two starts "
           "or a start after a stop.")
{
    World::run(c, {}, [&](World &w) {
        w.setupTls();
        w.addBackend("b0");
        w.ctl("MAP BACKEND v b0");
        std::vector<int> ports;
        for (int i = 0; i < 3; ++i)
            ports.push_back(World::freePort());
        // a port somebody else has
        int         busyFd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a      = {};
        a.sin_family       = AF_INET;
        a.sin_addr.s_addr  = htonl(INADDR_ANY);
        if (bind(busyFd, (sockaddr *)&a, sizeof a) || ::listen(busyFd, 8)) {
            ::close(busyFd);
            c.discard();
        }
        struct Closer {
            int fd;
            ~Closer() { ::close(fd); }
        } closer{busyFd};
        socklen_t l = sizeof a;
        getsockname(busyFd, (sockaddr *)&a, &l);
        int                busy = ntohs(a.sin_port);
        std::map<int, int> model;
        int                first = ports[0];
        w.ctl("LISTEN START " + std::to_string(first));
        model[first] = 1;
        std::vector<Sess> ss;
        ss.push_back(openSession(w, first, plainLogin("v")));
        // a client that was let in but is not yet logged in
        std::shared_ptr<Client> half;
        if (c.flip()) {
            half            = w.connect(first, plainLogin("v"), "", false);
            half->automatic = false;
            if (c.flip())
                half->begin();
            w.settle(3);
        }
        std::size_t steps = 1 + c.size(0, 15), starts = 0;
        for (std::size_t k = 0; k < steps; ++k) {
            bool batch     = c.flip();
            w.freezeServer = batch;
            for (std::size_t i = 0, n = batch ? 1 + c.below(4) : 1; i < n; ++i) {
                int p = c.pick(ports);
                switch (c.weighted({4, 4, 4, 1, 1})) {
                case 0:
                    w.ctl("LISTEN START " + std::to_string(p));
                    if (!model[p]) {
                        model[p] = 1;
                        ++starts;
                    }
                    break;
                case 1:
                    w.ctl("LISTEN START_SECURE " + std::to_string(p));
                    if (!model[p]) {
                        model[p] = 2;
                        ++starts;
                    }
                    break;
                case 2:
                    w.ctl("LISTEN STOP " + std::to_string(p));
                    model[p] = 0;
                    break;
                case 3:
                    // stops every port open when it is handled
                    w.freezeServer = false;
                    w.settle(2);
                    w.ctl("LISTEN STOP");
                    model.clear();
                    w.freezeServer = batch;
                    break;
                case 4:
                    w.ctl(std::string("LISTEN START") + (c.flip() ? "_SECURE " : " ") + std::to_string(busy));
                    c.label("port in use");
                    break;
                }
            }
            w.freezeServer = false;
            w.settle(3);
            if (batch)
                c.label("back to back");
            if (c.chance(1, 4)) {
                // accepting fails for a while, for want of descriptors or memory
                int p = c.pick(ports);
                sysnet::failAccept(p, 1 + (int)c.below(5), c.oneof<int>({EMFILE, ENFILE, ENOMEM, ENOBUFS, EPERM}));
                w.note("accepting on ", p, " fails");
                c.label(model[p] ? "accept fails" : "accept would fail");
                checkPort(w, p, model[p], "after accepting failed");
            }
            else if (c.flip()) {
                int p = c.pick(ports);
                checkPort(w, p, model[p], "during");
            }
        }
        for (int p : ports)
            checkPort(w, p, model[p], "at the end");
        if (starts >= 1)
            c.nontrivial();
        probe(w, ss[0], "an open session after listen commands");
        if (half) {
            half->automatic = true;
            if (half->gotStart)
                half->send(ref::connFrame(ref::STARTOK, ref::encArgs(half->spec.so)));
            else
                half->begin();
            w.until([&] { return half->isOpen || half->ended(); }, 3);
            c.check(half->isOpen, "a client connected before the listen commands cannot complete its login: ", outcomeOf(*half));
            c.label("login across listen commands");
        }
    });
}
