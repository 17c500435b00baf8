#include "scen.h"

#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/socket.h>

namespace {
std::size_t openFds()
{
    std::size_t n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}

// a frame that is not a method
ref::Frame content(pbt::Ctx &c)
{
    ref::Frame f = genFrame(c, 5000, 300);
    if (f.type == 1)
        f.type = 3;
    return f;
}

struct S {
    Sess        s;
    bool        tls   = false;
    bool        open  = false;   // logged in
    bool        over  = false;   // expected to be gone, both sides checked
    bool        excuse = false;  // no longer judged byte by byte
    std::string id;
};

struct Life {
    pbt::Ctx       &c;
    World          &w;
    std::vector<S>  ss;
    std::size_t     ended = 0;

    bool bothEnded(S &x)
    {
        return (!x.s.cl->open() || x.s.cl->ended()) && (!x.s.br || !x.s.br->open() || x.s.br->ended());
    }
    // the session must be gone on both sides
    void mustEnd(S &x, const std::string &why)
    {
        w.until([&] { return bothEnded(x); }, 3);
        c.check(!x.s.cl->open() || x.s.cl->ended(), "after ", why, " the client of ", x.s.vhost, " is still connected");
        c.check(!x.s.br || !x.s.br->open() || x.s.br->ended(), "after ", why, " the broker side of a session of ", x.s.vhost,
                " is still connected");
        x.over = true;
        ++ended;
    }
    void others(const std::string &when)
    {
        w.settle(2);
        for (auto &x : ss) {
            if (x.over)
                continue;
            c.check(!x.s.cl->ended(), "after ", when, " another session's client (vhost ", x.s.vhost, ") was disconnected");
            if (x.open) {
                c.check(!x.s.br->ended(), "after ", when, " another session's broker side (vhost ", x.s.vhost, ") was disconnected");
                if (!x.excuse && c.chance(1, 2))
                    probe(w, x.s, "another session after an end");
            }
        }
    }
    std::map<std::string, std::string> listing()  // client address -> id
    {
        std::map<std::string, std::string> m;
        for (auto &l : lines(w.ctl("CONN"))) {
            std::string id, who;
            for (auto &t : words(l)) {
                if (t.rfind("id=", 0) == 0)
                    id = t.substr(3);
                if (t.rfind("ingressRemote=", 0) == 0)
                    who = t.substr(14);
            }
            if (who.empty())
                continue;
            c.check(!m.count(who), "CONN lists the client ", who, " twice");
            m[who] = id;
        }
        return m;
    }
    std::string key(S &x) { return x.s.cl->srcIp + ":" + std::to_string(x.s.cl->srcPort); }
    void        checkListing()
    {
        w.advance(1100, 300);
        w.settle(3);
        auto                  m = listing();
        std::set<std::string> want;
        for (auto &x : ss)
            if (!x.over)
                want.insert(key(x));
        for (auto &k : want)
            c.check(m.count(k), "CONN does not list the live client ", k);
        for (auto &e : m)
            c.check(want.count(e.first), "CONN still lists ", e.first, " after its session ended and a clean-up ran");
        c.label("listing compared");
    }
    std::string idOf(S &x)
    {
        auto m = listing();
        c.check(m.count(key(x)), "CONN does not list the live client ", key(x));
        return m[key(x)];
    }
};
}

PBT_TARGET(life_any,
           "2-6 sessions over two vhosts and two brokers, some half-way through their login, some over TLS; up to 14 steps of traffic, client and "
           "broker closes and resets, session and vhost disconnect commands, clean-ups; both ends, the listing and the other sessions checked "
           "after each. Non-trivial: at least one session ended while another one lived on.")
{
    World::run(c, {}, [&](World &w) {
        bool tlsUsed = c.chance(1, 4);
        if (tlsUsed)
            w.setupTls();
        w.addBackend("b0");
        w.addBackend("b1");
        w.ctl("MAP BACKEND v0 b0");
        w.ctl("MAP BACKEND v1 b1");
        int  port  = w.listen();
        int  sport = tlsUsed ? w.listen(true) : 0;
        Life L{c, w, {}};
        auto freshSession = [&]() {
            S x;
            x.tls         = tlsUsed && c.flip();
            std::string v = c.flip() ? "v1" : "v0";
            if (c.chance(1, 5)) {
                // stops somewhere in its login
                auto cl       = w.connect(x.tls ? sport : port, plainLogin(v), "", x.tls);
                cl->automatic = false;
                std::size_t upTo = c.below(4);
                if (upTo >= 1)
                    cl->begin();
                w.settle(3);
                if (upTo >= 2) {
                    w.until([&] { return cl->gotStart || cl->ended(); }, 3);
                    c.check(cl->gotStart, "no Start: ", outcomeOf(*cl));
                    cl->send(ref::connFrame(ref::STARTOK, ref::encArgs(cl->spec.so)));
                }
                if (upTo >= 3) {
                    w.until([&] { return cl->gotTune || cl->ended(); }, 3);
                    c.check(cl->gotTune, "no Tune: ", outcomeOf(*cl));
                    cl->send(ref::connFrame(ref::TUNEOK, ref::encArgs(cl->spec.tok)));
                }
                w.settle(3);
                x.s.cl    = cl;
                x.s.vhost = v;
                w.note("client ", cl->srcPort, " stops its login after ", upTo, " steps");
            }
            else {
                x.s    = openSession(w, x.tls ? sport : port, plainLogin(v), x.tls);
                x.open = true;
            }
            L.ss.push_back(x);
        };
        std::size_t n = 2 + c.size(0, 4);
        for (std::size_t i = 0; i < n; ++i)
            freshSession();
        std::size_t steps = 1 + c.size(0, 13);
        for (std::size_t k = 0; k < steps; ++k) {
            S *px = nullptr;
            for (std::size_t i = 0, at = c.below(L.ss.size()); i < L.ss.size() && !px; ++i)
                if (!L.ss[(at + i) % L.ss.size()].over)
                    px = &L.ss[(at + i) % L.ss.size()];
            std::size_t kind = c.weighted({3, 3, 3, 3, 3, 4, 3, 3, 2, 2});
            if (!px && kind != 8)
                kind = 8;
            switch (kind) {
            case 0: {  // traffic, maybe still under way when the next thing happens
                S &x = *px;
                if (!x.open || x.excuse)
                    break;
                bool up = c.flip();
                sendFrames(w, x.s, up, 1 + c.size(0, 4), genCutter(c), 60000, 2000);
                if (c.flip()) {
                    std::vector<Sess> one = {x.s};
                    checkFlows(w, one, "traffic");
                }
                else {
                    x.excuse = true;
                    for (std::size_t i = 0, m = c.below(3); i < m; ++i)
                        w.round();
                }
                break;
            }
            case 1:
            case 2: {  // the client goes
                S &x = *px;
                if (kind == 1)
                    x.s.cl->close();
                else
                    x.s.cl->reset();
                w.note("client ", x.s.cl->srcPort, kind == 1 ? " closes" : " resets");
                L.mustEnd(x, "its client left");
                L.others("a client left");
                break;
            }
            case 3:
            case 4: {  // the broker goes
                S &x = *px;
                if (!x.open)
                    break;
                if (kind == 3)
                    x.s.br->close();
                else
                    x.s.br->reset();
                w.note("broker side of ", x.s.cl->srcPort, kind == 3 ? " closes" : " resets");
                L.mustEnd(x, "its broker left");
                L.others("a broker connection ended");
                break;
            }
            case 5: {  // graceful
                S &x = *px;
                if (!x.open || x.excuse)
                    break;
                w.settle(3);
                std::string id = L.idOf(x);
                std::size_t c0 = x.s.cl->data.size(), b0 = x.s.br->data.size();
                w.ctl("SESSION " + id + " DISCONNECT_GRACEFUL");
                w.until([&] { return x.s.cl->data.size() > c0 || x.s.cl->ended(); }, 3);
                w.settle(3);
                Bytes      got = x.s.cl->data.substr(c0);
                ref::Frame f;
                ref::Close cl;
                c.check(ref::takeFrame(got, f) == 1 && ref::connMethod(f) == ref::CLOSE && ref::decArgs(f, cl) && got.empty() && f.channel == 0,
                        "a graceful disconnect does not send the client exactly one Close");
                c.check(cl.code == 200, "the Close of a graceful disconnect has code ", cl.code);
                c.check(!x.s.cl->ended() && !x.s.br->ended(), "a graceful disconnect did not wait for the client");
                c.check(x.s.br->data.size() == b0, "a graceful disconnect sent the broker something before the client confirmed");
                x.over = true;  // not one of the others
                L.others("a graceful disconnect was begun");
                // the client may have something under way
                if (c.chance(1, 3)) {
                    x.s.cl->send(ref::encFrame(content(c)), genCutter(c));
                    w.settle(3);
                    c.check(x.s.br->data.size() == b0, "data sent after the Close was forwarded");
                    c.label("data after the Close");
                }
                if (c.chance(1, 4)) {
                    x.s.br->send(ref::encFrame(content(c)), genCutter(c));
                    w.settle(3);
                    c.label("broker data after the Close");
                }
                std::size_t answer = c.weighted({4, 2, 1, 1, 1});
                if (answer == 4) {
                    // the broker goes first
                    x.s.br->close();
                    L.mustEnd(x, "a graceful disconnect whose broker left");
                    L.others("a graceful disconnect");
                    break;
                }
                if (answer == 0)
                    x.s.cl->send(ref::connFrame(ref::CLOSEOK, ""), genCutter(c));
                else if (answer == 1) {
                    ref::Close q;
                    q.code = 200;
                    q.text = "bye";
                    std::size_t c1 = x.s.cl->data.size();
                    x.s.cl->send(ref::connFrame(ref::CLOSE, ref::encArgs(q)), genCutter(c));
                    w.until([&] { return x.s.cl->data.size() > c1 || x.s.cl->ended(); }, 3);
                    w.settle(2);
                    Bytes ok = x.s.cl->data.substr(c1);
                    c.check(ref::takeFrame(ok, f) == 1 && ref::connMethod(f) == ref::CLOSEOK && ok.empty(),
                            "a client that sends a Close while it is asked to close does not get a CloseOk");
                    answer = c.below(2) * 2;
                    if (answer == 0)
                        x.s.cl->send(ref::connFrame(ref::CLOSEOK, ""), genCutter(c));
                    else
                        x.s.cl->close();
                }
                else if (answer == 2)
                    x.s.cl->close();
                else
                    x.s.cl->reset();
                w.note("client answers the Close in way ", answer);
                w.until([&] { return x.s.br->data.size() > b0 || x.s.br->ended(); }, 3);
                w.settle(3);
                Bytes bg = x.s.br->data.substr(b0);
                c.check(ref::takeFrame(bg, f) == 1 && ref::connMethod(f) == ref::CLOSE && ref::decArgs(f, cl) && f.channel == 0 && bg.empty(),
                        "the broker did not get exactly one Close after the client confirmed (way ", answer, ", ", x.s.br->data.size() - b0,
                        " bytes)");
                c.check(cl.code == 200, "the Close of a graceful disconnect has code ", cl.code);
                // with the client gone there is nobody left to wait for
                c.check(answer >= 2 || !x.s.br->ended(), "a graceful disconnect did not wait for the broker");
                L.others("a graceful disconnect was under way");
                switch (c.weighted({4, 1, 1})) {
                case 0: x.s.br->send(ref::connFrame(ref::CLOSEOK, ""), genCutter(c)); break;
                case 1: {
                    ref::Close q;
                    q.code = 320;
                    q.text = "bye";
                    x.s.br->send(ref::connFrame(ref::CLOSE, ref::encArgs(q)), genCutter(c));
                    break;
                }
                case 2: x.s.br->close(); break;
                }
                L.mustEnd(x, "a completed graceful disconnect");
                L.others("a graceful disconnect");
                c.label("graceful disconnect");
                break;
            }
            case 6: {
                S          &x  = *px;
                std::string id = L.idOf(x);
                if (x.open && c.chance(1, 4))
                    x.s.cl->stalled = x.s.br->stalled = true, sendFrames(w, x.s, c.flip(), 1 + c.below(8), wholeCutter(), 120000, 100000), w.settle(3),
                    x.s.cl->stalled = x.s.br->stalled = false, c.label("forced with data under way");
                w.ctl("SESSION " + id + " FORCE_DISCONNECT");
                L.mustEnd(x, "SESSION FORCE_DISCONNECT");
                L.others("SESSION FORCE_DISCONNECT");
                break;
            }
            case 7: {
                bool        back = c.flip();
                std::string v    = c.flip() ? "v1" : "v0";
                w.ctl(std::string("VHOST ") + (back ? "BACKEND_DISCONNECT " : "FORCE_DISCONNECT ") + v);
                for (auto &x : L.ss)
                    if (!x.over && x.open && x.s.vhost == v)
                        L.mustEnd(x, back ? "VHOST BACKEND_DISCONNECT" : "VHOST FORCE_DISCONNECT");
                L.others(back ? "VHOST BACKEND_DISCONNECT" : "VHOST FORCE_DISCONNECT");
                break;
            }
            case 8: freshSession(); break;
            case 9: {
                std::string id = std::to_string(1000 + c.below(100000));
                std::string r  = w.ctl("SESSION " + id + " " + (c.flip() ? "FORCE_DISCONNECT" : "DISCONNECT_GRACEFUL"));
                c.check(contains(r, "not found"), "SESSION with an unknown id answered '", r, "'");
                w.ctl(std::string("VHOST ") + (c.flip() ? "BACKEND_DISCONNECT " : "FORCE_DISCONNECT ") + c.pick(std::vector<std::string>{"v", "v00", "V0", "/", "v2"}));
                L.others("disconnect commands naming nothing");
                break;
            }
            }
            if (c.chance(1, 4))
                L.checkListing();
        }
        L.checkListing();
        bool some = false;
        for (auto &x : L.ss)
            some |= !x.over;
        if (L.ended && some)
            c.nontrivial();
        // nothing left behind: every session's sockets are gone
        for (auto &x : L.ss)
            if (!x.over) {
                x.s.cl->close();
                L.mustEnd(x, "its client left");
            }
        for (auto &x : L.ss) {
            x.s.cl->close();
            if (x.s.br)
                x.s.br->close();
        }
        L.checkListing();
    });
}

// Graceful disconnect while traffic is under way: what each side got before
// its Close is a run of whole frames of what was sent, nothing else.
PBT_TARGET(graceful_busy,
           "2-4 sessions; one of them is disconnected gracefully while data to its client or its broker is stuck half-way; the others keep "
           "relaying buffers of the same sizes meanwhile. Non-trivial: data was stuck when the command came.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.ctl("MAP BACKEND v0 b0");
        int               port = w.listen();
        std::vector<Sess> ss;
        std::size_t       n = 2 + c.below(3);
        for (std::size_t i = 0; i < n; ++i)
            ss.push_back(openSession(w, port, plainLogin("v0")));
        Sess x = ss.back();
        ss.pop_back();
        bool up = c.flip(), down = !up || c.flip();
        // stuck: enough to fill the sockets
        auto stuff = [&](bool u) {
            Peer &rd   = u ? (Peer &)*x.br : (Peer &)*x.cl;
            rd.stalled = true;
            int sz     = 20000;
            setsockopt(rd.fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
            Bytes       all;
            Flow       &f    = u ? x.up : x.down;
            std::size_t want = c.oneof<std::size_t>({200000, 3000000, 6000000, 9000000});
            while (all.size() < want) {
                ref::Frame fr = genFrame(c, 130000, 100000);
                if (fr.type == 1)
                    fr.type = 3;
                if (fr.payload.size() < 20000)
                    fr.payload += c.bulk(60000);
                all += ref::encFrame(fr);
            }
            f.whole += all;
            for (std::size_t at = 0; at < all.size(); at += 100000)
                (u ? (Peer &)*x.cl : (Peer &)*x.br).send(all.substr(at, 100000));
        };
        if (up)
            stuff(true);
        if (down)
            stuff(false);
        w.settle(3);
        int inUp = 0, inDown = 0;
        ioctl(x.br->fd, FIONREAD, &inUp);
        ioctl(x.cl->fd, FIONREAD, &inDown);
        if (x.br->data.size() - x.up.base + inUp < x.up.whole.size() || x.cl->data.size() - x.down.base + inDown < x.down.whole.size())
            c.nontrivial();
        std::string id;
        for (auto &l : lines(w.ctl("CONN")))
            if (contains(l, "ingressRemote=" + x.cl->srcIp + ":" + std::to_string(x.cl->srcPort) + " "))
                id = words(l)[0].substr(3);
        c.check(!id.empty(), "CONN does not list a live client");
        w.ctl("SESSION " + id + " DISCONNECT_GRACEFUL");
        for (std::size_t i = 0, m = c.below(3); i < m; ++i) {
            for (auto &s : ss)
                sendFrames(w, s, c.flip(), 1 + c.below(3), wholeCutter(), 130000, 100000);
            checkFlows(w, ss, "other sessions during a graceful disconnect");
        }
        x.cl->stalled = x.br->stalled = false;
        auto wholePrefix = [&](const Bytes &got, const Bytes &sent, const char *who, bool closed) {
            Bytes      left = got;
            ref::Frame f;
            std::size_t used = 0;
            while (ref::takeFrame(left, f) == 1) {
                if (ref::connMethod(f) == ref::CLOSE) {
                    c.check(left.empty(), who, " got something after its Close");
                    c.check(closed, who, " got a Close too early");
                    return true;
                }
                Bytes e = ref::encFrame(f);
                c.check(sent.compare(used, e.size(), e) == 0, who, " got a frame that was not sent at position ", used);
                used += e.size();
            }
            c.check(sent.compare(used, left.size(), left) == 0, who, " got bytes that were not sent at position ", used);
            return false;
        };
        // the client confirms once it sees the Close, as a client does: after what it had already sent
        bool answered = false;
        w.until(
            [&] {
                if (!answered && x.cl->data.size() > x.down.base && x.cl->allSent()) {
                    Bytes      left = x.cl->data.substr(x.down.base);
                    ref::Frame f;
                    while (ref::takeFrame(left, f) == 1)
                        if (ref::connMethod(f) == ref::CLOSE) {
                            x.cl->send(ref::connFrame(ref::CLOSEOK, ""));
                            answered = true;
                        }
                }
                if (answered && x.br->data.size() > x.up.base) {
                    Bytes      left = x.br->data.substr(x.up.base);
                    ref::Frame f;
                    while (ref::takeFrame(left, f) == 1)
                        if (ref::connMethod(f) == ref::CLOSE)
                            return true;
                }
                return x.cl->ended() || x.br->ended();
            },
            4);
        c.check(wholePrefix(x.cl->data.substr(x.down.base), x.down.whole, "the client", true), "the client did not get a Close, it has ",
                x.cl->data.size() - x.down.base, " of ", x.down.whole.size(), " bytes");
        c.check(answered, "the client's data cannot be sent after a graceful disconnect");
        c.check(wholePrefix(x.br->data.substr(x.up.base), x.up.whole, "the broker", true), "the broker did not get a Close, it has ",
                x.br->data.size() - x.up.base, " of ", x.up.whole.size(), " bytes");
        x.br->send(ref::connFrame(ref::CLOSEOK, ""));
        w.until([&] { return x.cl->ended() && x.br->ended(); }, 3);
        c.check(x.cl->ended() && x.br->ended(), "a completed graceful disconnect leaves a side connected");
        checkFlows(w, ss, "other sessions after a graceful disconnect");
    });
}

// A graceful disconnect that crosses with whatever the two peers do of their own.
PBT_TARGET(graceful_cross,
           "one session is disconnected gracefully; client and broker then send data, methods, Close, CloseOk or end the connection in any order. The "
           "client is told to close once, the broker once the client has confirmed or gone, whoever sends a Close gets a CloseOk, nothing else is "
           "sent, and the session ends when the broker confirms, closes or either is gone. Non-trivial: a Close crosses, or something "
           "unexpected comes first.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.ctl("MAP BACKEND v0 b0");
        bool tls = c.chance(1, 6);
        if (tls)
            w.setupTls();
        int  port = w.listen(tls);
        Sess x    = openSession(w, port, plainLogin("v0"), tls), other = openSession(w, port, plainLogin("v0"), tls);
        for (std::size_t i = 0, n = c.below(3); i < n; ++i)
            sendFrames(w, x, c.flip(), 1 + c.below(3), wholeCutter(), 20000, 2000);
        std::vector<Sess> both{x, other};
        checkFlows(w, both, "before");
        x.cl->automatic = false;
        std::string id;
        for (auto &l : lines(w.ctl("CONN")))
            if (contains(l, "ingressRemote=" + x.cl->srcIp + ":" + std::to_string(x.cl->srcPort) + " "))
                id = words(l)[0].substr(3);
        c.check(!id.empty(), "CONN does not list a live client");
        std::size_t cBase = x.cl->data.size(), bBase = x.br->data.size();
        std::string wantC, wantB;  // methods expected, by name
        auto        seen = [&](auto &p, std::size_t base) {
            std::string s;
            Bytes       left = p.data.substr(base);
            ref::Frame  f;
            while (ref::takeFrame(left, f) == 1) {
                int m = ref::connMethod(f);
                s += m == ref::CLOSE ? "Close " : m == ref::CLOSEOK ? "CloseOk " : "other ";
            }
            if (!left.empty())
                s += "rest ";
            return s;
        };
        enum { ASKED, CONFIRMED, OVER } at = ASKED;
        w.note("SESSION ", id, " DISCONNECT_GRACEFUL");
        w.ctl("SESSION " + id + " DISCONNECT_GRACEFUL");
        w.settle(3);
        wantC = "Close ";
        bool crossed = false;
        for (int step = 0; at != OVER; ++step) {
            bool        cl = c.flip();
            int         what = (int)c.weighted({4, 3, 2, 2, 1});
            if (step > 8)
                what = 0;
            Peer       &p = cl ? (Peer &)*x.cl : (Peer &)*x.br;
            const char *WHAT[] = {"CloseOk", "Close", "data", "method", "ends the connection"};
            w.note(cl ? "client: " : "broker: ", WHAT[what]);
            switch (what) {
            case 0: p.send(ref::connFrame(ref::CLOSEOK, ""), genCutter(c)); break;
            case 1: {
                ref::Close q;
                q.code = (uint16_t)c.below(1000);
                q.text = c.bytes(c.below(30));
                p.send(ref::connFrame(ref::CLOSE, ref::encArgs(q)), genCutter(c));
                break;
            }
            case 2:
                for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i)
                    p.send(ref::encFrame(content(c)), genCutter(c));
                break;
            case 3: {
                // a method of an open channel: class, method, arguments
                ref::Frame f;
                f.type    = 1;
                f.channel = (uint16_t)(1 + c.below(20));
                f.payload = Bytes("\0", 1) + (char)c.oneof<int>({20, 40, 50, 60, 90}) + Bytes("\0", 1) + (char)c.oneof<int>({10, 11, 20, 21, 80}) + c.bytes(c.below(30));
                p.send(ref::encFrame(f), genCutter(c));
                break;
            }
            default:
                if (c.flip())
                    p.reset();
                else
                    p.close();
            }
            if (cl) {
                if (what == 1)
                    wantC += "CloseOk ";
                if (at == ASKED && (what == 0 || what == 4)) {
                    at = CONFIRMED;
                    wantB += "Close ";
                }
                // with the client gone there is nobody left to wait for
                if (what == 4)
                    at = OVER;
            }
            else {
                if (what == 1)
                    wantB += "CloseOk ";
                if (what == 1 || what == 4 || (what == 0 && at == CONFIRMED))
                    at = OVER;
            }
            crossed |= what != 0;
            w.until([&] { return at == OVER ? (!x.cl->open() || x.cl->ended()) && (!x.br->open() || x.br->ended()) : seen(*x.cl, cBase) == wantC && seen(*x.br, bBase) == wantB; }, 1);
            w.settle(2);
            // a peer that is gone has no say; one that the session ends for may miss the last word only by having left
            if (x.cl->open())
                c.check(seen(*x.cl, cBase) == wantC, "the client was sent ", seen(*x.cl, cBase), "instead of ", wantC);
            if (x.br->open())
                c.check(seen(*x.br, bBase) == wantB, "the broker was sent ", seen(*x.br, bBase), "instead of ", wantB);
            if (at != OVER) {
                c.check(!x.cl->open() || !x.cl->ended(), "the client was disconnected before the broker confirmed");
                c.check(!x.br->open() || !x.br->ended(), "the broker was disconnected before it confirmed");
            }
            else {
                c.check(!x.cl->open() || x.cl->ended(), "the client is left connected");
                c.check(!x.br->open() || x.br->ended(), "the broker is left connected");
            }
            std::vector<Sess> o{other};
            checkFlows(w, o, "another session");
        }
        if (crossed)
            c.nontrivial();
    });
}

// Ends and configuration changes at any point of a login.
PBT_TARGET(leave_any,
           "logins to a vhost served by a single backend, by a name with several addresses or by a farm, some of them refusing, held up at the "
           "auth service or at a step of the broker; after a generated number of rounds the client leaves, the login is disconnected by a "
           "command, its broker leaves, or its backend, farm or mapping is removed. Non-trivial: the event came after the connection and before "
           "the login was complete.")
{
    World::run(c, {}, [&](World &w) {
        Broker *by = w.addBackend("by");
        w.ctl("MAP BACKEND v0 by");
        int  port = w.listen();
        Sess keep = openSession(w, port, plainLogin("v0"));
        (void)by;
        // what serves v1
        std::vector<Broker *>    bs;
        std::vector<std::string> names;
        int                      shape = (int)c.below(3);
        auto setup = [&]() {
            if (shape == 0) {
                w.ctl("MAP BACKEND v1 s0");
            }
            else if (shape == 1) {
                w.ctl("MAP BACKEND v1 d0");
            }
            else {
                std::string l = "FARM ADD f0 round-robin";
                for (auto &n : names)
                    l += " " + n;
                w.ctl(l);
                w.ctl("MAP FARM v1 f0");
            }
        };
        if (shape == 0) {
            bs.push_back(w.addBackend("s0"));
            names = {"s0"};
        }
        else if (shape == 1) {
            std::size_t m = 1 + c.below(3);
            std::vector<std::pair<std::string, int>> as;
            for (std::size_t i = 0; i < m; ++i) {
                bs.push_back(w.addBroker("127.0.0.1", i + 1 < m && c.flip()));
                as.push_back({"127.0.0.1", bs.back()->lis.port});
            }
            w.dns["d.host"] = as;
            w.ctl("BACKEND ADD_DNS d0 dc1 d.host 5672");
            names = {"d0"};
        }
        else {
            std::size_t m = 1 + c.below(4);
            for (std::size_t i = 0; i < m; ++i) {
                names.push_back("f" + std::to_string(i));
                bs.push_back(w.addBackend(names.back(), "dc1", "", "127.0.0.1", c.chance(1, 3)));
            }
        }
        setup();
        int  hp   = w.startHttp();
        bool auth = c.chance(1, 3);
        bool holdAuth = false;
        std::vector<HttpConn *> waiting;
        w.http = [&](const HttpReq &r) {
            HttpAction a;
            if (holdAuth)
                waiting.push_back(r.conn);
            a.bytes      = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
            a.closeAfter = true;
            a.hold       = holdAuth;
            return a;
        };
        if (auth)
            w.ctl("AUTH SERVICE 127.0.0.1 " + std::to_string(hp) + " /x");
        auto strangers = [&]() {
            std::size_t n = 0;
            for (auto &b : w.allBrokerConns())
                if (b != keep.br && b->open() && !b->ended())
                    ++n;
            return n;
        };
        std::size_t rounds = 1 + c.size(0, 3);
        for (std::size_t k = 0; k < rounds; ++k) {
            Step hold = c.oneof<Step>({S_NEVER, S_HEADER, S_STARTOK, S_OPEN});
            for (auto *b : bs)
                b->holdAt = hold;
            holdAuth = auth && c.flip();
            LoginSpec   ls   = plainLogin("v1");
            ls.pipeline      = !c.flip();
            auto cl          = w.connect(port, ls);
            cl->begin();
            std::size_t n = c.below(24);
            for (std::size_t i = 0; i < n; ++i)
                w.round();
            bool early = !cl->isOpen && !cl->ended();
            if (early)
                c.nontrivial();
            int  ev        = (int)c.below(10);
            bool mustEnd   = true;
            w.note("event ", ev, " after ", n, " rounds, broker holds at ", (int)hold);
            // only the command is processed now, not the sessions
            w.freezeServer = c.flip();
            switch (ev) {
            case 0: cl->close(); break;
            case 1: cl->reset(); break;
            case 2: {
                std::string id;
                for (auto &l : lines(w.ctl("CONN")))
                    if (contains(l, "ingressRemote=" + cl->srcIp + ":" + std::to_string(cl->srcPort) + " "))
                        id = words(l)[0].substr(3);
                if (id.empty()) {
                    cl->close();
                    break;
                }
                w.ctl("SESSION " + id + " FORCE_DISCONNECT");
                break;
            }
            case 3: w.ctl("VHOST FORCE_DISCONNECT v1"), mustEnd = false; break;
            case 4: w.ctl("VHOST BACKEND_DISCONNECT v1"), mustEnd = false; break;
            case 5:
                for (auto *b : bs)
                    for (auto &bc : b->conns())
                        if (bc->open())
                            c.flip() ? bc->close() : bc->reset();
                mustEnd = false;
                break;
            case 6: w.ctl("BACKEND DELETE " + names[c.below(names.size())]), mustEnd = false; break;
            case 7: w.ctl(shape == 2 ? "FARM DELETE f0" : "BACKEND DELETE " + names[0]), mustEnd = false; break;
            case 8: w.ctl("MAP UNMAP v1"), mustEnd = false; break;
            case 9:
                for (auto &x : names)
                    w.ctl("BACKEND DELETE " + x);
                if (shape == 2)
                    w.ctl("FARM DELETE f0");
                mustEnd = false;
                break;
            }
            w.freezeServer = false;
            bool later = c.flip();
            if (later)
                w.settle(3);
            // everything held up goes on now
            for (auto *b : bs)
                b->holdAt = S_NEVER;
            holdAuth = false;
            for (auto *h : waiting)
                if (h->open())
                    h->send("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
            waiting.clear();
            w.settle(4);
            if (mustEnd) {
                w.until([&] { return !cl->open() || cl->ended(); }, 3);
                c.check(!cl->open() || cl->ended(), "a client that was disconnected during its login is still connected");
            }
            else if (hold != S_NEVER) {
                // the broker said nothing at that step and will not any more
                cl->close();
                w.settle(3);
            }
            else {
                w.until([&] { return cl->isOpen || cl->ended(); }, 3);
                c.check(cl->isOpen || cl->ended(), "a login neither completed nor failed: ", outcomeOf(*cl));
                if (cl->isOpen && !cl->ended()) {
                    Sess s;
                    s.cl = cl;
                    s.br = w.brokerOf(*cl);
                    if (s.br && !s.br->ended()) {
                        s.vhost     = "v1";
                        s.up.base   = s.br->data.size();
                        s.down.base = s.cl->data.size();
                        probe(w, s, "a session whose configuration changed during its login");
                    }
                }
                cl->close();
            }
            w.until([&] { return strangers() == 0; }, 3);
            c.check(strangers() == 0, strangers(), " broker connections are left open although no client is left");
            w.advance(2100, 300);
            w.settle(3);
            c.check(strangers() == 0, "a broker was connected to after its client had left");
            std::size_t ls2 = 0;
            for (auto &l : lines(w.ctl("CONN")))
                if (contains(l, "ingressRemote="))
                    ++ls2;
            c.check(ls2 == 1, "CONN lists ", ls2, " sessions instead of the one that is left");
            probe(w, keep, "a bystander session");
            // put the configuration back
            if (ev >= 6) {
                if (shape == 2)
                    w.ctl("FARM DELETE f0");
                w.ctl("MAP UNMAP v1");
                for (std::size_t i = 0; i < names.size(); ++i) {
                    w.ctl("BACKEND DELETE " + names[i]);
                    if (shape == 1)
                        w.ctl("BACKEND ADD_DNS d0 dc1 d.host 5672");
                    else
                        w.ctl("BACKEND ADD " + names[i] + " dc1 127.0.0.1 " + std::to_string(bs[i]->lis.port));
                }
                setup();
            }
        }
    });
}

PBT_TARGET(paused_any,
           "2-6 sessions over two vhosts of which one or both get paused, with logins held back; up to 12 steps of broker data, closes, resets and "
           "disconnect commands, then unpausing; who is ended and who lives on compared with a model. Non-trivial: a paused or held session "
           "was ended by a command or a peer while another one lived on.")
{
    World::run(c, {}, [&](World &w) {
        w.addBackend("b0");
        w.addBackend("b1");
        w.ctl("MAP BACKEND v0 b0");
        w.ctl("MAP BACKEND v1 b1");
        int                   port = w.listen();
        Life                  L{c, w, {}};
        std::set<std::string> paused;
        auto                  fresh = [&]() {
            S           x;
            std::string v = c.flip() ? "v1" : "v0";
            if (paused.count(v)) {
                auto cl = w.connect(port, plainLogin(v), "", false);
                cl->begin();
                w.until([&] { return cl->gotTune || cl->ended(); }, 3);
                w.settle(3);
                c.check(!cl->ended() && !cl->isOpen, "a login for the paused vhost ", v, ": ", outcomeOf(*cl));
                x.s.cl    = cl;
                x.s.vhost = v;
                c.label("held login");
            }
            else {
                x.s    = openSession(w, port, plainLogin(v), false);
                x.open = true;
            }
            L.ss.push_back(x);
        };
        std::size_t n = 1 + c.size(0, 3);
        for (std::size_t i = 0; i < n; ++i)
            fresh();
        auto pause = [&](const std::string &v) {
            w.ctl("VHOST PAUSE " + v);
            w.settle(2);
            paused.insert(v);
        };
        // others() sends data through sessions, which paused ones do not forward
        auto others = [&](const std::string &when) {
            w.settle(2);
            for (auto &x : L.ss) {
                if (x.over)
                    continue;
                c.check(!x.s.cl->ended(), "after ", when, " another session's client (vhost ", x.s.vhost, ") was disconnected");
                if (!x.open)
                    continue;
                c.check(!x.s.br->ended(), "after ", when, " another session's broker side (vhost ", x.s.vhost, ") was disconnected");
                if (!paused.count(x.s.vhost) && c.chance(1, 2))
                    probe(w, x.s, "another session after an end");
            }
        };
        pause(c.flip() ? "v1" : "v0");
        std::size_t steps = 1 + c.size(0, 11);
        bool        mixed = false;
        for (std::size_t k = 0; k < steps; ++k) {
            S *px = nullptr;
            for (std::size_t i = 0, at = c.below(L.ss.size()); i < L.ss.size() && !px; ++i)
                if (!L.ss[(at + i) % L.ss.size()].over)
                    px = &L.ss[(at + i) % L.ss.size()];
            std::size_t kind = px ? c.weighted({3, 2, 3, 3, 3, 3, 1, 1, 1}) : 0;
            std::string what;
            bool        wasPaused = px && paused.count(px->s.vhost);
            switch (kind) {
            case 0: fresh(); break;
            case 1:
            case 2:
                what = "its client left";
                if (c.flip())
                    px->s.cl->close();
                else
                    px->s.cl->reset();
                L.mustEnd(*px, what);
                break;
            case 3:
                if (!px->open)
                    break;
                what = "its broker left";
                if (c.flip())
                    px->s.br->close();
                else
                    px->s.br->reset();
                L.mustEnd(*px, what);
                break;
            case 4: {
                std::string id = L.idOf(*px);
                what           = "SESSION FORCE_DISCONNECT";
                w.ctl("SESSION " + id + " FORCE_DISCONNECT");
                L.mustEnd(*px, what);
                break;
            }
            case 5: {
                bool        back = c.flip();
                std::string v    = c.flip() ? "v1" : "v0";
                what             = back ? "VHOST BACKEND_DISCONNECT" : "VHOST FORCE_DISCONNECT";
                bool held        = false;
                for (auto &x : L.ss)
                    held |= !x.over && !x.open && x.s.vhost == v;
                if (back && held)
                    break;  // there is no backend side to disconnect
                w.ctl(what + " " + v);
                wasPaused = paused.count(v);
                bool any  = false;
                for (auto &x : L.ss)
                    if (!x.over && x.s.vhost == v) {
                        L.mustEnd(x, what);
                        any = true;
                    }
                if (!any)
                    wasPaused = false;
                break;
            }
            case 6: pause(c.flip() ? "v1" : "v0"); break;
            case 7: {
                // broker data reaches the clients of paused sessions
                if (!px->open)
                    break;
                Bytes b = ref::encFrame(content(c));
                px->s.br->send(b);
                px->s.down.whole += b;
                w.until([&] { return px->s.cl->data.size() >= px->s.down.whole.size(); }, 3);
                c.check(px->s.cl->data == px->s.down.whole, "a client of ", px->s.vhost, " got ", px->s.cl->data.size(), " of ",
                        px->s.down.whole.size(), " bytes");
                break;
            }
            case 8: {
                std::string v = c.flip() ? "v1" : "v0";
                if (!paused.count(v))
                    break;
                w.ctl("VHOST UNPAUSE " + v);
                paused.erase(v);
                what = "unpausing";
                for (auto &x : L.ss)
                    if (!x.over && x.s.vhost == v && x.open)
                        L.mustEnd(x, what);
                    else if (!x.over && x.s.vhost == v) {
                        w.until([&] { return x.s.cl->isOpen || x.s.cl->ended(); }, 3);
                        c.check(x.s.cl->isOpen, "after unpausing a held login of ", v, ": ", outcomeOf(*x.s.cl));
                        x.s.br = w.brokerOf(*x.s.cl);
                        c.check(x.s.br != nullptr, "internal: no broker connection");
                        x.s.br->data.clear();
                        x.s.cl->data.clear();
                        x.open = true;
                    }
                wasPaused = false;
                break;
            }
            }
            if (!what.empty()) {
                others(what);
                std::size_t alive = 0;
                for (auto &x : L.ss)
                    alive += !x.over;
                mixed |= wasPaused && alive;
            }
            if (c.chance(1, 4))
                L.checkListing();
        }
        L.checkListing();
        if (mixed)
            c.nontrivial();
    });
}
