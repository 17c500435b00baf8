#include "scen.h"

static Bytes startOkFrame(const LoginSpec &s) { return ref::connFrame(ref::STARTOK, ref::encArgs(s.so)); }
static Bytes tuneOkFrame(const LoginSpec &s) { return ref::connFrame(ref::TUNEOK, ref::encArgs(s.tok)); }
static Bytes openFrame(const LoginSpec &s) { return ref::connFrame(ref::OPEN, ref::encArgs(ref::Open{s.vhost})); }

// Brings a manual client to the point where the proxy waits for
// 0 the header, 1 StartOk, 2 TuneOk, 3 Open, 4 the broker, 5 nothing: open.
static void driveTo(World &w, Client &cl, int stage)
{
    cl.automatic = false;
    if (stage == 0)
        return;
    cl.begin();
    w.until([&] { return cl.gotStart || cl.ended(); });
    w.c.check(cl.gotStart, "no Start for a correct protocol header");
    if (stage == 1)
        return;
    cl.send(startOkFrame(cl.spec));
    w.until([&] { return cl.gotTune || cl.ended(); });
    w.c.check(cl.gotTune, "no Tune for a correct StartOk");
    if (stage == 2)
        return;
    cl.send(tuneOkFrame(cl.spec));
    w.settle(3);
    if (stage == 3)
        return;
    cl.send(openFrame(cl.spec));
    if (stage == 4) {
        w.settle(4);
        return;
    }
    w.until([&] { return cl.isOpen || cl.ended(); });
    w.c.check(cl.isOpen, "login did not complete: ", outcomeOf(cl));
}

static Bytes deepTable(pbt::Ctx &c, std::size_t depth)
{
    // a table whose only field nests `depth` tables or arrays
    Bytes inner;
    bool  arr = c.flip(), mixed = c.flip();
    for (std::size_t i = 0; i < depth; ++i) {
        Bytes f;
        bool  a = mixed ? (i % 2) : arr;
        bool  parentTable = i + 1 == depth ? true : (mixed ? ((i + 1) % 2 == 0) : !arr);
        if (parentTable)
            f += Bytes("\1k", 2);
        f += a ? 'A' : 'F';
        ref::put32(f, (uint32_t)inner.size());
        inner = f + inner;
        if (inner.size() > 120000)
            break;
    }
    return inner;
}

// Something that breaks the protocol for sure when the proxy expects method
// `expected` (0: a session is open, so only the framing counts).
static Bytes violation(pbt::Ctx &c, int expected, const LoginSpec &sp, std::string *what)
{
    Bytes good;
    Bytes args;
    int   m = expected;
    switch (expected) {
    case ref::STARTOK: args = ref::encArgs(sp.so); break;
    case ref::TUNEOK: args = ref::encArgs(sp.tok); break;
    case ref::OPEN: args = ref::encArgs(ref::Open{sp.vhost}); break;
    case ref::START: args = ref::encArgs(ref::Start()); break;
    case ref::TUNE: args = ref::encArgs(ref::Tune()); break;
    }
    good = expected ? ref::connFrame(m, args) : ref::encFrame(genFrame(c, 30000, 300));
    unsigned kinds = expected ? (expected == ref::STARTOK || expected == ref::START ? 5 : 4) : 2;
    switch (c.below(kinds)) {
    case 0: {
        *what = "bad frame end";
        char e = (char)c.below(255);
        if ((unsigned char)e >= 0xCE)
            e++;
        good.back() = e;
        return good;
    }
    case 1: {
        *what = "oversized frame";
        Bytes f;
        f += (char)c.oneof<int>({1, 2, 3, 8});
        ref::put16(f, (uint16_t)c.edgy(16));
        uint32_t n = c.oneof<uint32_t>({131072u * 2, 1u << 20, 0x7fffffffu, 0xffffffffu, 0xfffffff8u, 200000});
        n += (uint32_t)c.below(7);
        if (n < 200000)
            n = 0xffffffffu;
        ref::put32(f, n);
        f += c.bulk(c.oneof<std::size_t>({1, 50, 5000}));
        return f;
    }
    case 2: {
        *what = "out-of-turn method";
        int o;
        do
            o = c.oneof<int>({ref::START, ref::STARTOK, ref::TUNE, ref::TUNEOK, ref::OPEN, ref::OPENOK, ref::CLOSE, ref::CLOSEOK, 60, 61, 999, 0});
        while (o == expected);
        return ref::connFrame(o, c.flip() ? args : c.bulk(c.size(0, 100)));
    }
    case 3: {
        *what = "truncated arguments";
        std::size_t keep = args.size();
        if (expected == ref::OPEN)
            keep = 1 + sp.vhost.size();
        if (keep == 0)
            keep = 1;
        return ref::connFrame(m, args.substr(0, c.below(keep)));
    }
    default: {
        *what         = "deep nesting";
        std::size_t d = c.oneof<std::size_t>({150, 1000, 5000, 12000, 20000});
        Bytes       a, t = deepTable(c, d);
        if (expected == ref::START)
            a += Bytes("\0\11", 2);
        ref::put32(a, (uint32_t)t.size());
        a += t;
        if (expected == ref::STARTOK)
            a += ref::shortstr("PLAIN") + ref::longstr("x") + ref::shortstr("en_US");
        else
            a += ref::longstr("PLAIN") + ref::longstr("en_US");
        return ref::connFrame(m, a);
    }
    }
}

// Anything at all: may or may not be a violation.
static Bytes garbage(pbt::Ctx &c, const LoginSpec &sp)
{
    Bytes b;
    switch (c.below(6)) {
    case 0: b = c.bulk(c.size(1, 400)); break;
    case 1: b = c.bytes(1 + c.size(0, 40)); break;
    case 2: {
        // mutated login stream
        b = ref::PROTOCOL_HEADER + startOkFrame(sp) + tuneOkFrame(sp) + openFrame(sp);
        if (c.flip())
            b.erase(0, 8);
        for (std::size_t i = 0, n = 1 + c.below(8); i < n && !b.empty(); ++i) {
            std::size_t p = c.below(b.size());
            switch (c.below(4)) {
            case 0: b[p] = (char)c.below(256); break;
            case 1: b.erase(p, 1 + c.below(5)); break;
            case 2: b.insert(p, c.bytes(1 + c.below(4))); break;
            default: b = b.substr(0, p + 1); break;
            }
        }
        break;
    }
    case 3: {
        // a frame around random contents of any type, ids of the connection class likely
        Bytes p;
        if (c.flip())
            ref::put16(p, 10);
        if (c.flip())
            ref::put16(p, (uint16_t)c.oneof<int>({10, 11, 30, 31, 40, 41, 50, 51, 20, 21, 60}));
        p += c.bytes(c.size(0, 30));
        b = ref::encFrame((uint8_t)c.oneof<int>({1, 8, 2, 3, 0, 255}), (uint16_t)c.edgy(16), p);
        break;
    }
    case 4: {
        // method frames too short to carry a method
        for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i)
            b += ref::encFrame(1, 0, c.bytes(c.below(4)));
        break;
    }
    default: {
        std::string x;
        b = violation(c, c.oneof<int>({ref::STARTOK, ref::TUNEOK, ref::OPEN, ref::START, ref::TUNE, 0}), sp, &x);
        break;
    }
    }
    return b;
}

static void checkPrefixOfFrames(World &w, const Bytes &got, const std::vector<Bytes> &good, const char *who)
{
    std::size_t p = 0;
    for (auto &f : good) {
        if (p >= got.size())
            break;
        w.c.check(got.compare(p, f.size(), f) == 0 && got.size() - p >= f.size(), who,
                  " received bytes that are not a whole-frame prefix of what was sent before the violation");
        p += f.size();
    }
    w.c.check(p == got.size(), who, " received ", got.size() - p, " bytes from behind the violation");
}

PBT_TARGET(hostile_any,
           "a victim session is open while hostile peers (clients at each of 6 stages, brokers at each of 4) send definite "
           "protocol violations or arbitrary mutated bytes under generated segmentation. Non-trivial: a definite violation, or "
           "garbage of more than 7 bytes, was delivered and the victim session was exercised afterwards.")
{
    World::run(c, {}, [&](World &w) {
        auto *bv = w.addBackend("bv");
        (void)bv;
        auto *bh = w.addBackend("bh");
        w.ctl("MAP BACKEND victim bv");
        w.ctl("MAP BACKEND v bh");
        int               port = w.listen();
        std::vector<Sess> ss;
        ss.push_back(openSession(w, port, plainLogin("victim")));
        std::size_t rounds = 1 + c.size(0, 3);
        for (std::size_t r = 0; r < rounds; ++r) {
            LoginSpec sp = genLogin(c, "v", c.flip());
            sp.cut       = nullptr;
            if (!c.chance(1, 3)) {
                // ---- hostile client
                int  stage    = (int)c.below(6);
                bool definite = !c.chance(1, 3);
                if (stage == 4)
                    bh->holdAt = S_HEADER;
                auto cl = w.connect(port, sp);
                driveTo(w, *cl, stage);
                std::shared_ptr<BrokerConn> br;
                if (stage >= 4) {
                    br = bh->last();
                    c.check((bool)br, "the broker was not contacted");
                }
                std::string        what = "garbage";
                std::vector<Bytes> good;
                Bytes              bad;
                Cutter             cut = genCutter(c);
                bool               wrongHeader = false;
                if (stage == 0 && definite) {
                    what = "wrong header";
                    bad  = c.flip() ? Bytes("AMQP") + c.bytes(4) : c.bulk(8);
                    if (c.chance(1, 3)) {
                        bad = c.oneof<Bytes>({Bytes("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), ref::PROTOCOL_HEADER + "x", Bytes("AMQP\0\0\11\1\1", 9)}) + c.bulk(c.below(100));
                        cut = wholeCutter();
                    }
                    if (bad == ref::PROTOCOL_HEADER || bad == ref::LEGACY_HEADER)
                        c.discard();
                    wrongHeader = true;
                }
                else if (definite) {
                    int expected = stage == 1 ? ref::STARTOK : stage == 2 ? ref::TUNEOK : stage == 3 ? ref::OPEN : 0;
                    bad          = violation(c, expected, sp, &what);
                }
                else
                    bad = garbage(c, sp);
                Bytes pre;
                if (stage == 5)
                    for (std::size_t i = 0, n = c.below(3); i < n; ++i) {
                        good.push_back(ref::encFrame(genFrame(c, 20000, 200)));
                        pre += good.back();
                    }
                Bytes post;
                if (c.flip() && !wrongHeader)
                    post = stage == 5 ? ref::encFrame(genFrame(c, 3000, 200)) : openFrame(sp);
                w.note("client at stage ", stage, ": ", what, " ", pbt::hex(bad, 40), " (", bad.size(), " bytes)");
                c.label(std::string(what) + " at " + std::to_string(stage));
                if (definite || bad.size() > 7)
                    c.nontrivial();
                if (stage == 4)
                    bh->holdAt = S_NEVER;
                cl->send(pre + bad + post, cut);
                if (definite) {
                    w.until([&] { return cl->ended() || !cl->open(); }, 4);
                    c.check(cl->ended(), "the client stays connected after ", what, " at stage ", stage);
                    if (wrongHeader)
                        c.check(cl->buf == ref::PROTOCOL_HEADER, "after a wrong protocol header the client got ", pbt::hex(cl->buf));
                    if (br) {
                        w.until([&] { return br->ended(); }, 4);
                        c.check(br->ended(), "the broker connection stays open after the client's ", what, " at stage ", stage);
                    }
                    if (stage == 5)
                        checkPrefixOfFrames(w, br->data, good, "the broker");
                }
                else
                    w.settle(6);
                cl->close();
                if (br && !definite)
                    w.until([&] { return br->ended(); }, 4);
                if (br)
                    c.check(br->ended(), "the broker connection stays open after its client left");
            }
            else {
                // ---- hostile broker
                int  stage    = (int)c.below(5);  // header, startok, tuneok, open, opened
                bool definite = !c.chance(1, 3);
                std::string what = "garbage";
                int         expected = stage == 0 ? ref::START : stage == 1 ? ref::TUNE : 0;
                Bytes       bad = definite ? violation(c, expected, sp, &what) : garbage(c, sp);
                // from the broker's side a Close is not a violation
                if (definite && what == "out-of-turn method" && bad.size() > 10 && bad[9] == 0 && bad[10] == ref::CLOSE)
                    definite = false;
                bh->cut = genCutter(c);
                c.label("broker " + what + " at " + std::to_string(stage));
                w.note("broker at stage ", stage, ": ", what, " ", pbt::hex(bad, 40), " (", bad.size(), " bytes)");
                if (definite || bad.size() > 7)
                    c.nontrivial();
                if (stage < 4) {
                    bh->rawAt    = (Step)stage;
                    bh->rawBytes = bad;
                }
                auto cl = w.connect(port, sp);
                cl->begin();
                std::vector<Bytes> good;
                if (stage == 4) {
                    w.until([&] { return cl->isOpen || cl->ended(); });
                    c.check(cl->isOpen, "login did not complete: ", outcomeOf(*cl));
                    Bytes pre;
                    for (std::size_t i = 0, n = c.below(3); i < n; ++i) {
                        good.push_back(ref::encFrame(genFrame(c, 20000, 200)));
                        pre += good.back();
                    }
                    bh->last()->send(pre + bad + (c.flip() ? ref::encFrame(8, 0, "") : Bytes()), bh->cut);
                }
                if (definite) {
                    w.until([&] { return cl->ended(); }, 4);
                    c.check(cl->ended(), "the client stays connected after the broker's ", what, " at stage ", stage);
                    if (stage < 4)
                        c.check(!cl->isOpen, "the client was told the connection is open after the broker's ", what);
                    else
                        checkPrefixOfFrames(w, cl->data, good, "the client");
                    auto br = bh->last();
                    w.until([&] { return br->ended(); }, 4);
                    c.check(br->ended(), "the broker connection stays open after its own ", what);
                }
                else
                    w.settle(6);
                cl->close();
                bh->rawAt = S_NEVER;
                bh->cut   = nullptr;
            }
            w.settle(2);
            probe(w, ss[0], "another session after hostile bytes");
        }
        // and the proxy still serves newcomers
        Sess s = openSession(w, port, plainLogin("v"));
        probe(w, s, "a new session after hostile bytes");
    });
}
