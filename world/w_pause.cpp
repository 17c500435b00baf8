#include "scen.h"

namespace {
struct Held {
    std::shared_ptr<Client> cl;
    std::string             vhost;
    bool                    gone = false;
    Bytes                   early;  // sent while held
};
struct Est {
    Sess s;
    bool paused = false;  // was open when its vhost was paused
    bool dead   = false;
};
}

PBT_TARGET(pause_any,
           "up to 24 steps of VHOST PAUSE/UNPAUSE on three vhosts, logins (also half-way through when the pause comes), heartbeats and "
           "disconnects of held clients, mapping changes and traffic on open sessions. Non-trivial: a client was held and then let in.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.addBackend("b1");
        std::vector<std::string>   vs = {"v0", "v1", "v1/x"};
        std::map<std::string, int> route;
        for (auto &v : vs) {
            route[v] = (int)c.below(2);
            w.ctl("MAP BACKEND " + v + " b" + std::to_string(route[v]));
        }
        int                   port = w.listen();
        std::set<std::string> paused;
        std::vector<Held>     held;
        std::vector<Est>      est;
        bool                  letIn = false;
        auto completed = [&](std::shared_ptr<Client> cl, const std::string &v, const char *how) {
            w.until([&] { return cl->isOpen || cl->ended() || cl->gotClose; }, 4);
            if (route[v] < 0) {
                w.until([&] { return cl->ended(); }, 3);
                c.check(cl->gotClose && cl->ended() && !cl->isOpen, how, " of an unmapped vhost was not refused: ", outcomeOf(*cl));
                return;
            }
            c.check(cl->isOpen, how, " did not complete its login: ", outcomeOf(*cl));
            Est e;
            e.s.cl    = cl;
            e.s.br    = w.brokerOf(*cl);
            e.s.vhost = v;
            c.check(e.s.br && e.s.br->isOpen, how, " has no broker connection");
            c.check(e.s.br->backend == route[v], how, " went to b", e.s.br->backend, " instead of b", route[v]);
            c.check(e.s.br->op.vhost == v, how, " logged in to vhost ", e.s.br->op.vhost);
            e.s.up.base   = e.s.br->data.size();
            e.s.down.base = e.s.cl->data.size();
            est.push_back(e);
        };
        auto checkHeld = [&]() {
            for (auto &h : held) {
                if (h.gone)
                    continue;
                c.check(!w.brokerOf(*h.cl), "a connection for the paused vhost ", h.vhost, " reached a broker");
                c.check(!h.cl->isOpen && !h.cl->gotClose, "a held client was answered: ", outcomeOf(*h.cl));
                c.check(!h.cl->ended(), "a held client was disconnected: ", outcomeOf(*h.cl));
            }
        };
        auto checkEst = [&](Est &e) {
            if (e.dead)
                return;
            if (!e.paused) {
                probe(w, e.s, "an open session not paused");
                return;
            }
            // paused while open: stays connected, still hears its broker, is not heard
            ref::Frame f = genFrame(c, 2000, 100);
            Bytes      b = ref::encFrame(f);
            e.s.br->send(b);
            e.s.down.whole += b;
            w.until([&] { return e.s.cl->data.size() - e.s.down.base >= e.s.down.whole.size(); }, 3);
            c.check(e.s.cl->data.substr(e.s.down.base) == e.s.down.whole, "a paused session does not get its broker's data");
            if (c.flip())
                e.s.cl->send(ref::encFrame(genFrame(c, 2000, 100)));
            w.settle(3);
            c.check(e.s.br->data.size() - e.s.up.base == e.s.up.whole.size(), "data of a client of a paused vhost was forwarded");
            c.check(!e.s.cl->ended() && !e.s.br->ended(), "an open session was disconnected by pausing its vhost");
            c.label("open session paused");
        };
        std::size_t steps = 3 + c.size(0, 21);
        for (std::size_t k = 0; k < steps; ++k) {
            std::string v = c.pick(vs);
            switch (c.weighted({6, 4, 4, 2, 2, 2, 2, 1, 2})) {
            case 0: {
                auto cl = w.connect(port, plainLogin(v));
                cl->spec.cut      = genCutter(c);
                cl->spec.pipeline = !c.flip();
                cl->begin();
                w.note("login for ", v);
                if (paused.count(v)) {
                    w.until([&] { return cl->sentTuneOk && cl->allSent(); }, 4);
                    w.settle(4);
                    held.push_back({cl, v});
                    checkHeld();
                }
                else
                    completed(cl, v, "a login for a vhost that is not paused");
                break;
            }
            case 1:
                w.ctl("VHOST PAUSE " + v);
                paused.insert(v);
                for (auto &e : est)
                    if (!e.dead && e.s.vhost == v)
                        e.paused = true;
                w.settle(2);
                checkHeld();
                break;
            case 2: {
                w.ctl("VHOST UNPAUSE " + v);
                paused.erase(v);
                for (auto &e : est)
                    if (!e.dead && e.s.vhost == v && e.paused) {
                        w.until([&] { return e.s.cl->ended() && e.s.br->ended(); }, 3);
                        c.check(e.s.cl->ended() && e.s.br->ended(),
                                "a session that was open when its vhost was paused is not disconnected by the unpause");
                        e.dead = true;
                    }
                std::vector<Held> rest, go;
                for (auto &h : held)
                    (h.vhost == v ? go : rest).push_back(h);
                held = rest;
                for (auto &h : go)
                    if (!h.gone) {
                        completed(h.cl, v, "a client held by a pause");
                        if (route[v] >= 0) {
                            letIn = true;
                            if (c.flip())
                                probe(w, est.back().s, "a session that was held by a pause");
                        }
                    }
                w.settle(2);
                checkHeld();
                break;
            }
            case 3: {
                // half-way through its login when the pause comes
                if (paused.count(v))
                    break;
                auto cl      = w.connect(port, plainLogin(v));
                cl->spec.cut = genCutter(c);
                cl->begin();
                for (std::size_t i = 0, n = c.below(8); i < n && !cl->sentTuneOk; ++i)
                    w.round();
                bool early = !cl->sentTuneOk;
                if (!early) {
                    completed(cl, v, "a login for a vhost that is not paused");
                    break;
                }
                w.ctl("VHOST PAUSE " + v, true);
                // the command itself takes rounds: see how far the login was
                paused.insert(v);
                for (auto &e : est)
                    if (!e.dead && e.s.vhost == v)
                        e.paused = true;
                w.until([&] { return cl->isOpen || cl->ended() || (cl->sentTuneOk && cl->allSent()); }, 4);
                w.settle(4);
                if (cl->isOpen || w.brokerOf(*cl) || cl->ended()) {
                    // slipped through before the pause took effect: not judged further
                    cl->close();
                    c.label("login raced the pause");
                }
                else {
                    held.push_back({cl, v});
                    c.label("paused during the login");
                }
                break;
            }
            case 4:
                // held clients keep their connection alive
                for (auto &h : held)
                    if (!h.gone && c.flip()) {
                        h.cl->send(ref::encFrame(8, 0, ""), genCutter(c));
                        w.note("held client sends a heartbeat");
                        c.label("held client sends heartbeats");
                    }
                w.settle(3);
                checkHeld();
                break;
            case 5: {
                route[v] = (int)c.below(3) - 1;
                if (route[v] < 0)
                    w.ctl("MAP UNMAP " + v);
                else
                    w.ctl("MAP BACKEND " + v + " b" + std::to_string(route[v]));
                break;
            }
            case 6: {
                w.advance(1 + c.below(40000), 500);
                checkHeld();
                break;
            }
            case 7:
                for (auto &h : held)
                    if (!h.gone && c.flip()) {
                        h.cl->close();
                        h.gone = true;
                        w.note("held client leaves");
                        break;
                    }
                w.settle(2);
                break;
            case 8:
                for (auto &e : est)
                    if (c.flip())
                        checkEst(e);
                break;
            }
            if (c.chance(1, 3)) {
                std::set<std::string> got;
                for (auto &l : lines(w.ctl("VHOST PRINT")))
                    if (l.size() > 9 && l.substr(l.size() - 9) == " = PAUSED")
                        got.insert(l.substr(0, l.size() - 9));
                c.check(got == paused, "VHOST PRINT lists ", got.size(), " paused vhosts instead of ", paused.size());
            }
        }
        for (auto &e : est)
            checkEst(e);
        checkHeld();
        if (letIn)
            c.nontrivial();
    });
}

// Clients are somewhere between asking for their vhost and being connected
// when pauses come and go.
PBT_TARGET(pause_pending,
           "logins whose authentication is pending, with VHOST PAUSE/UNPAUSE of two vhosts (also several before the server gets to run) and "
           "answers of the auth service in any order; finally everything is unpaused and allowed. Non-trivial: a pause came "
           "while a login was under way.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        std::vector<std::string> vs = {"v0", "v1"};
        for (auto &v : vs)
            w.ctl("MAP BACKEND " + v + " b0");
        int  port = w.listen();
        int  hp   = w.startHttp();
        bool all  = false;
        std::deque<HttpConn *> pending;
        const Bytes            allow = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\n" + Bytes("\x08\x00", 2);
        w.http = [&](const HttpReq &r) {
            HttpAction a;
            a.hold  = !all;
            a.bytes = allow;
            if (!all)
                pending.push_back(r.conn);
            return a;
        };
        w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /auth");
        struct One {
            std::shared_ptr<Client> cl;
            std::string             vhost;
            bool                    barred = false;  // had no broker when its vhost was paused
            bool                    loose  = false;  // had one: not judged any more
            bool                    left   = false;
        };
        std::vector<One>      ones;
        std::set<std::string> paused;
        bool                  between = false;
        auto judge = [&](const char *when) {
            for (auto &o : ones) {
                if (o.loose || o.left)
                    continue;
                c.check(!o.cl->ended() && !o.cl->gotClose, when, ": a client logging in to ", o.vhost, " was turned away: ", outcomeOf(*o.cl));
                if (o.barred)
                    c.check(!w.brokerOf(*o.cl) && !o.cl->isOpen, when, ": a connection for the paused vhost ", o.vhost, " reached a broker");
            }
        };
        std::size_t steps = 3 + c.size(0, 20);
        for (std::size_t k = 0; k < steps; ++k) {
            switch (c.weighted({4, 3, 3, 3, 1, 1})) {
            case 0: {
                One o;
                o.vhost              = c.pick(vs);
                o.cl                 = w.connect(port, plainLogin(o.vhost));
                o.cl->spec.pipeline  = c.flip();
                o.cl->begin();
                o.barred = paused.count(o.vhost) > 0;
                w.note("login for ", o.vhost);
                ones.push_back(o);
                if (c.chance(3, 4))
                    w.settle(4);
                break;
            }
            case 1: {
                bool frozen = c.flip();
                std::size_t n = 1 + (frozen ? c.below(4) : 0);
                // nothing is on its way to the server that could overtake the commands
                w.settle(4);
                w.freezeServer = frozen;
                for (std::size_t i = 0; i < n; ++i) {
                    std::string v  = c.pick(vs);
                    bool        on = c.flip();
                    w.ctl(std::string("VHOST ") + (on ? "PAUSE " : "UNPAUSE ") + v);
                    on ? (void)paused.insert(v) : (void)paused.erase(v);
                    for (auto &o : ones)
                        if (o.vhost == v && !o.left && !o.loose) {
                            if (on && (w.brokerOf(*o.cl) || o.cl->isOpen))
                                o.loose = true;
                            else {
                                o.barred = on;
                                if (on && !o.cl->isOpen)
                                    between = true;
                            }
                        }
                }
                w.freezeServer = false;
                w.settle(4);
                break;
            }
            case 2:
                if (!pending.empty()) {
                    std::size_t i = c.below(pending.size());
                    w.note("auth answered");
                    if (pending[i]->fd >= 0) {
                        pending[i]->send(allow);
                        pending[i]->closeWhenSent = true;
                    }
                    pending.erase(pending.begin() + i);
                    if (c.flip())
                        w.settle(4);
                }
                break;
            case 3:
                w.settle(4);
                break;
            case 4:
                for (auto &o : ones)
                    if (!o.left && !o.loose && !o.cl->isOpen && !w.brokerOf(*o.cl) && o.cl->sentTuneOk && c.flip())
                        o.cl->send(ref::encFrame(8, 0, ""));
                w.settle(3);
                break;
            default:
                if (!ones.empty()) {
                    auto &o = ones[c.below(ones.size())];
                    if (!o.left) {
                        o.cl->close();
                        o.left = true;
                        w.settle(3);
                    }
                }
                break;
            }
            judge("meanwhile");
        }
        w.settle(4);
        all = true;
        while (!pending.empty()) {
            if (pending.front()->fd >= 0) {
                pending.front()->send(allow);
                pending.front()->closeWhenSent = true;
            }
            pending.pop_front();
        }
        if (c.flip())
            w.settle(4);
        for (auto &v : vs) {
            w.ctl("VHOST UNPAUSE " + v);
            for (auto &o : ones)
                if (o.vhost == v)
                    o.barred = false;
        }
        for (auto &o : ones) {
            if (o.loose || o.left)
                continue;
            w.until([&] { return o.cl->isOpen || o.cl->ended(); }, 3);
            c.check(o.cl->isOpen, "a login did not complete after its vhost was unpaused: ", outcomeOf(*o.cl));
            Sess s;
            s.cl    = o.cl;
            s.br    = w.brokerOf(*o.cl);
            s.vhost = o.vhost;
            c.check(s.br && s.br->isOpen, "an open session has no broker connection");
            s.up.base   = s.br->data.size();
            s.down.base = s.cl->data.size();
            probe(w, s, "a session that was logging in during a pause");
        }
        judge("finally");
        if (between)
            c.nontrivial();
    });
}

// The broker has been reached already, and takes its time.
PBT_TARGET(pause_midway,
           "logins of up to three vhosts that have reached their brokers, which stop reading at any step; VHOST PAUSE/UNPAUSE meanwhile; then "
           "the brokers go on. Non-trivial: a vhost was paused while its login was between reaching the broker and being open.")
{
    World::run(c, {}, [&](World &w) {
        struct One {
            std::string                 vhost;
            Broker                     *b = nullptr;
            std::shared_ptr<Client>     cl;
            std::shared_ptr<BrokerConn> br;
            bool                        paused = false, wasOpen = false, over = false;
            Sess                        s;
        };
        std::vector<One> ones(1 + c.below(3));
        int              port = w.listen();
        bool             hit  = false;
        for (std::size_t i = 0; i < ones.size(); ++i) {
            auto &o = ones[i];
            o.vhost = "v" + std::to_string(i);
            o.b     = w.addBackend("b" + std::to_string(i));
            w.ctl("MAP BACKEND " + o.vhost + " b" + std::to_string(i));
        }
        auto look = [&](One &o, const char *when) {
            if (!o.cl || o.over)
                return;
            c.check(!o.cl->ended() && !o.cl->gotClose, when, ": a client whose login had reached its broker was turned away: ", outcomeOf(*o.cl));
            if (o.cl->isOpen && !o.wasOpen) {
                o.wasOpen = true;
                o.s.cl    = o.cl;
                o.s.br    = o.br;
                o.s.vhost = o.vhost;
                o.s.up.base   = o.br->data.size();
                o.s.down.base = o.cl->data.size();
            }
        };
        std::size_t steps = 3 + c.size(0, 17);
        for (std::size_t k = 0; k < steps; ++k) {
            auto &o = ones[c.below(ones.size())];
            switch (c.weighted({4, 4, 3, 3})) {
            case 0: {
                if (o.paused || (o.cl && !o.over))
                    break;
                std::size_t before = o.b->count();
                o.s    = Sess();
                o.over = o.wasOpen = false;
                o.cl               = w.connect(port, plainLogin(o.vhost));
                o.cl->begin();
                w.note("login for ", o.vhost);
                w.until([&] { return o.b->count() > before || o.cl->ended(); }, 4);
                c.check(o.b->count() == before + 1, "a login did not reach its broker: ", outcomeOf(*o.cl));
                o.br          = o.b->last();
                std::size_t n = c.below(6);
                for (std::size_t i = 0; i < n && !o.br->gotOpen; ++i)
                    w.round();
                o.br->stalled = true;
                w.note("its broker stops after ", o.br->order);
                w.settle(3);
                look(o, "at first");
                break;
            }
            case 1: {
                o.paused = !o.paused;
                if (o.cl && !o.over && !o.wasOpen && o.paused) {
                    hit = true;
                    c.label("paused midway");
                }
                w.ctl(std::string(o.paused ? "VHOST PAUSE " : "VHOST UNPAUSE ") + o.vhost);
                if (!o.paused && o.cl && !o.over && o.wasOpen) {
                    // was open when it was paused, or became so
                    w.until([&] { return o.cl->ended() && o.br->ended(); }, 3);
                    o.br->stalled = false;
                    w.until([&] { return o.cl->ended() && o.br->ended(); }, 3);
                    c.check(o.cl->ended() && o.br->ended(), "a session that was open while its vhost was paused is not disconnected by the unpause");
                    o.over = true;
                    c.label("ended by the unpause");
                }
                w.settle(2);
                break;
            }
            case 2:
                if (o.br && !o.over && o.br->stalled) {
                    o.br->stalled = false;
                    w.note("the broker of ", o.vhost, " goes on");
                    w.until([&] { return o.cl->isOpen || o.cl->ended() || o.cl->gotClose; }, 4);
                    c.check(o.cl->isOpen, "a login that had reached its broker did not complete: ", outcomeOf(*o.cl));
                    w.settle(2);
                    look(o, "open");
                    if (o.paused) {
                        Bytes b = ref::encFrame(genFrame(c, 2000, 100));
                        o.br->send(b);
                        o.s.down.whole += b;
                        w.until([&] { return o.cl->data.size() - o.s.down.base >= o.s.down.whole.size(); }, 3);
                        c.check(o.cl->data.substr(o.s.down.base) == o.s.down.whole, "a paused session does not get its broker's data");
                        if (c.flip())
                            o.cl->send(ref::encFrame(genFrame(c, 2000, 100)));
                        w.settle(3);
                        c.check(o.br->data.size() == o.s.up.base, "data of a client of a paused vhost was forwarded");
                        c.label("open and paused");
                    }
                    else {
                        probe(w, o.s, "a session that got through");
                        c.label("open and not paused");
                    }
                }
                break;
            default: w.advance(1 + c.below(5000), 500); break;
            }
            for (auto &x : ones)
                look(x, "meanwhile");
        }
        if (hit)
            c.nontrivial();
    });
}
