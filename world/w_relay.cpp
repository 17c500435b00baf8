#include "scen.h"

static void relay(pbt::Ctx &c, World &w, std::vector<Sess> &ss, bool counts = true)
{
    std::size_t nops  = 2 + c.size(0, 12);
    std::size_t moved = 0;
    for (std::size_t k = 0; k < nops; ++k) {
        Sess &s  = ss[c.below(ss.size())];
        bool  up = !c.flip();
        if (s.dead)
            continue;
        Flow &fl = up ? s.up : s.down;
        switch (c.weighted({8, 3, 2, 2, 2, 3, 1, 1, 1})) {
        case 0:
            if (fl.partial.empty() && fl.whole.size() < 900000) {
                sendFrames(w, s, up, 1 + c.size(0, 6), genCutter(c));
                ++moved;
            }
            break;
        case 1:
            if (fl.whole.size() < 900000) {
                if (!fl.partial.empty())
                    c.label("frame finished later");
                finishPartial(w, s, up, genCutter(c));
                ++moved;
            }
            break;
        case 2: {
            Peer &p   = up ? (Peer &)*s.br : (Peer &)*s.cl;
            p.stalled = !p.stalled;
            w.note("reader ", up ? "broker " : "client ", s.cl->srcPort, p.stalled ? " stops" : " resumes");
            if (p.stalled)
                c.label("stalled reader");
            break;
        }
        case 3: {
            Peer &p     = up ? (Peer &)*s.br : (Peer &)*s.cl;
            p.readLimit = c.oneof<std::size_t>({0, 1000, 7, 100, 20000});
            w.note("reader ", up ? "broker " : "client ", s.cl->srcPort, " takes ", p.readLimit, " bytes per round");
            break;
        }
        case 4: w.advance(1 + c.below(3000)); break;
        case 5:
            for (std::size_t i = 0, n = c.below(8); i < n; ++i)
                w.round();
            break;
        case 6: w.settle(2); break;
        case 7:
            // very many small frames at once
            if (fl.partial.empty() && fl.whole.size() < 900000) {
                Bytes       one  = ref::encFrame(genFrame(c, 8 + c.oneof<std::size_t>({0, 12, 40}), 12));
                std::size_t many = c.oneof<std::size_t>({130, 600, 1100, 5000, 9000});
                Bytes       out;
                for (std::size_t i = 0; i < many; ++i)
                    out += one;
                fl.whole += out;
                fl.frames += many;
                (up ? (Peer &)*s.cl : (Peer &)*s.br).send(out, c.flip() ? wholeCutter() : genCutter(c));
                w.note(up ? "client " : "broker ", s.cl->srcPort, " sends ", many, " frames of ", one.size(), " bytes");
                c.label("very many frames at once");
                ++moved;
            }
            break;
        case 8:
            // a long stream
            if (fl.partial.empty() && fl.whole.size() < 900000 && c.chance(1, 8)) {
                ref::Frame f;
                f.type      = 3;
                f.channel   = 1;
                std::size_t total = c.oneof<std::size_t>({1, 3, 9}) << 20;
                Bytes       out;
                while (out.size() < total) {
                    f.payload = c.bulk(100000 + c.below(31000));
                    out += ref::encFrame(f);
                    ++fl.frames;
                }
                fl.whole += out;
                (up ? (Peer &)*s.cl : (Peer &)*s.br).send(out);
                w.note(up ? "client " : "broker ", s.cl->srcPort, " sends ", out.size(), " bytes");
                c.label("long stream");
                ++moved;
            }
            break;
        }
    }
    for (auto &s : ss) {
        s.cl->stalled = s.br->stalled = false;
        if (s.cl->readLimit && s.cl->readLimit < 500)
            s.cl->readLimit = 20000;
        if (s.br->readLimit && s.br->readLimit < 500)
            s.br->readLimit = 20000;
    }
    checkFlows(w, ss, "after traffic");
    if (moved >= 2 && counts)
        c.nontrivial();
}

// one side sends a last burst and closes; the other only reads
static void closeAfterBurst(pbt::Ctx &c, World &w, std::vector<Sess> &ss, Sess &s, bool up)
{
    Flow &fl = up ? s.up : s.down;
    Peer &p  = up ? (Peer &)*s.cl : (Peer &)*s.br;
    Peer &q  = up ? (Peer &)*s.br : (Peer &)*s.cl;
    if (fl.partial.empty())
        sendFrames(w, s, up, 1 + c.size(0, 5), genCutter(c));
    p.stalled       = true;  // so its own reads do not matter
    p.closeWhenSent = true;
    w.until([&] { return q.ended(); }, 8);
    c.check(q.ended(), "a session's other side stays open after its peer closed");
    const Bytes &got = up ? s.br->data : s.cl->data;
    std::size_t  base = fl.base;
    c.check(got.substr(base) == fl.whole, "frames sent before closing did not all arrive: sent ",
            fl.whole.size(), " arrived ", got.size() - base);
    c.label("close after burst");
    s.dead = true;
    checkFlows(w, ss, "after another session closed");
}

PBT_TARGET(relay_any,
           "1-3 sessions on 1-2 brokers; interleaved whole and unfinished frames of every type/size "
           "both ways under generated segmentation, stalled and slow readers; then one side closes. "
           "Non-trivial: at least two sends and an exact comparison of every byte on every socket.")
{
    World::run(c, {}, [&](World &w) {
        std::size_t nb = 1 + c.below(2);
        for (std::size_t i = 0; i < nb; ++i) {
            auto *b = w.addBackend("b" + std::to_string(i));
            b->cut  = genCutter(c);
            w.ctl("MAP BACKEND v" + std::to_string(i) + " b" + std::to_string(i));
        }
        int               port = w.listen();
        std::size_t       ns   = 1 + c.below(3);
        std::vector<Sess> ss;
        for (std::size_t i = 0; i < ns; ++i) {
            Broker *b = w.brokers[i % nb].get();
            // frames glued to OpenOk
            Bytes extra;
            if (c.chance(1, 4)) {
                for (std::size_t k = 0, n = 1 + c.below(3); k < n; ++k)
                    extra += ref::encFrame(genFrame(c, 30000, 200));
                c.label("frames right behind OpenOk");
            }
            b->extraAfterOpenOk = extra;
            LoginSpec sp = plainLogin("v" + std::to_string(i % nb));
            sp.cut       = genCutter(c);
            Sess s       = openSession(w, port, sp);
            s.down.base  = 0;
            s.down.whole = extra;
            ss.push_back(s);
            b->extraAfterOpenOk.clear();
        }
        if (ns > 1)
            c.label("several sessions");
        relay(c, w, ss);
        if (c.chance(1, 2)) {
            Sess &s  = ss[c.below(ss.size())];
            bool  up = !c.flip();
            closeAfterBurst(c, w, ss, s, up);
        }
        // nobody got anything that is not a session's
        c.check(w.brokerConnCount() == ns, "unexpected broker connections");
    });
}

// P20
static void genKnobs(pbt::Ctx &c)
{
    tlsKnobs(c.oneof<unsigned>({16384, 512, 1024, 4000}), c.flip());
}
PBT_TARGET(tls_any,
           "1-3 sessions over plain and secure ports and plain, TLS and PROXY-then-TLS backends, TLS 1.2 and 1.3, generated record "
           "sizes; handshakes that fail at generated points in between; traffic as in relay_any. Non-trivial: a session with TLS on "
           "some side carries at least two sends.")
{
    World::run(c, {}, [&](World &w) {
        w.setupTls();
        genKnobs(c);
        std::vector<std::string> vh;
        std::vector<std::string> flags = {"", "TLS", "TLS SEND-PROXY", "SEND-PROXY TLS"};
        std::size_t              nb    = 1 + c.below(2);
        for (std::size_t i = 0; i < nb; ++i) {
            std::string n = std::to_string(i);
            auto       *b = w.addBackend("b" + n, "dc1", c.pick(flags));
            b->cut        = genCutter(c);
            w.ctl("MAP BACKEND v" + n + " b" + n);
        }
        // backends whose configuration does not match what they speak
        auto *plainOne = w.addBackend("liar", "dc1", "TLS");
        plainOne->tls  = false;
        plainOne->automatic = c.flip();
        auto *tlsOne   = w.addBackend("honest", "dc1", "");
        tlsOne->tls    = true;
        w.ctl("MAP BACKEND vliar liar");
        w.ctl("MAP BACKEND vhonest honest");
        int plain = w.listen(), secure = w.listen(true);
        std::vector<Sess> ss;
        std::size_t       ns = 1 + c.below(3);
        bool              any = false;
        for (std::size_t i = 0; i < ns; ++i) {
            bool      tls = c.flip();
            LoginSpec sp  = plainLogin("v" + std::to_string(i % nb));
            sp.cut        = genCutter(c);
            genKnobs(c);
            Sess s = openSession(w, tls ? secure : plain, sp, tls);
            any |= tls || w.brokers[i % nb]->tls;
            c.label(std::string(tls ? "tls" : "plain") + " client, " + (w.brokers[i % nb]->tls ? "tls" : "plain") + " broker");
            ss.push_back(s);
        }
        auto spoil = [&] {
            w.note("a handshake that cannot work");
            std::shared_ptr<Client> cl;
            switch (c.below(5)) {
            case 0: {  // plain bytes on a secure port
                cl = w.connect(secure, plainLogin("v0"));
                cl->begin();
                w.until([&] { return cl->ended() || cl->gotStart; }, 3);
                c.check(!cl->gotStart && !cl->isOpen, "a secure port spoke plain AMQP");
                c.label("plain client on secure port");
                break;
            }
            case 1: {  // TLS on a plain port
                cl = w.connect(plain, plainLogin("v0"), "", true);
                cl->begin();
                w.until([&] { return cl->ended() || cl->gotStart || cl->sslDone; }, 3);
                c.check(!cl->gotStart && !cl->sslDone, "a plain port spoke TLS");
                c.label("TLS client on plain port");
                break;
            }
            case 2: {  // garbage or silence, then gone
                cl = w.connect(secure, plainLogin("v0"));
                if (c.flip())
                    cl->send(c.bulk(1 + c.below(600)), genCutter(c));
                for (std::size_t i = 0, n = c.below(6); i < n; ++i)
                    w.round();
                c.flip() ? cl->close() : cl->reset();
                c.label("garbage on secure port");
                break;
            }
            case 3: {
                std::size_t before = plainOne->count();
                cl                 = w.connect(plain, plainLogin("vliar"));
                cl->begin();
                w.until([&] { return cl->isOpen || cl->ended() || (plainOne->count() > before && plainOne->last()->wire.size()); }, 3);
                c.check(!cl->isOpen, "a login completed over a TLS backend that does not speak TLS");
                c.check(plainOne->count() == before + 1, "the backend was not tried");
                auto bc = plainOne->last();
                if (!plainOne->automatic)
                    bc->close();
                w.until([&] { return cl->isOpen || cl->gotClose || cl->ended(); }, 3);
                Bytes got = bc->wire + bc->rx;
                c.check(!contains(got, "AMQP"), "AMQP was sent in plain text to a backend configured for TLS: ", pbt::show(got));
                c.check(got.empty() || got[0] == 0x16, "something other than a TLS handshake was sent to a backend configured for TLS: ", pbt::show(got));
                c.check(cl->ended() || cl->gotClose, "the client is left waiting after the backend's TLS handshake failed");
                c.label("backend refuses TLS");
                break;
            }
            default: {
                std::size_t before = tlsOne->count();
                cl                 = w.connect(plain, plainLogin("vhonest"));
                cl->begin();
                w.until([&] { return tlsOne->count() > before && tlsOne->last()->ended(); }, 3);
                c.check(tlsOne->count() == before + 1, "the backend was not tried");
                tlsOne->last()->close();
                w.until([&] { return cl->isOpen || cl->gotClose || cl->ended(); }, 3);
                c.check(!cl->isOpen, "a login completed over a plain backend that expects TLS");
                c.check(!tlsOne->last()->sslDone, "TLS was spoken to a backend not configured for it");
                c.check(cl->ended() || cl->gotClose, "the client is left waiting");
                c.label("backend wants TLS");
                break;
            }
            }
            if (cl->fd >= 0)
                cl->close();
            w.settle(2);
        };
        for (std::size_t i = 0, n = c.below(3); i < n; ++i)
            spoil();
        relay(c, w, ss, any);
        if (c.flip()) {
            spoil();
            checkFlows(w, ss, "after a failed handshake");
        }
        if (c.chance(1, 2)) {
            Sess &s  = ss[c.below(ss.size())];
            bool  up = !c.flip();
            closeAfterBurst(c, w, ss, s, up);
        }
        std::size_t open = 0;
        for (std::size_t i = 0; i < nb; ++i)
            open += w.brokers[i]->count();
        c.check(open == ns, "unexpected broker connections");
    });
}
