#include "scen.h"
#include <algorithm>

ref::Frame genFrame(pbt::Ctx &c, std::size_t maxFrame, std::size_t likely)
{
    ref::Frame f;
    f.type    = (uint8_t)c.oneof<int>({3, 1, 2, 8, 1, 2, 3, 4, 0, 255});
    f.channel = (uint16_t)c.edgy(16);
    if (maxFrame >= 48 && c.chance(1, 10)) {
        // what a client or broker would really send on an open connection
        f.channel = 0;
        switch (c.below(6)) {
        case 0: f.type = 8; return f;  // heartbeat
        case 1: {
            ref::Close cl;
            cl.code = 320;
            cl.text = "bye";
            f.type    = 1;
            f.payload = Bytes("\0\x0a\0\x32", 4) + ref::encArgs(cl);
            return f;
        }
        case 2: f.type = 1; f.payload = Bytes("\0\x0a\0\x33", 4); return f;                 // CloseOk
        case 3: f.type = 1; f.payload = Bytes("\0\x0a\0\x3c\3low", 8); return f;            // Blocked
        case 4: f.type = 1; f.payload = Bytes("\0\x0a\0\x3d", 4); return f;                 // Unblocked
        default: f.type = 1; f.payload = Bytes("\0\x0a\0\x46\0\0\0\1x\1r", 11); return f;  // update-secret
        }
    }
    std::size_t lim = maxFrame - 8;
    std::size_t n;
    switch (c.weighted({6, 3, 2, 2, 1})) {
    case 0: n = c.below(40); break;
    case 1: n = c.below(std::min(likely, lim) + 1); break;
    case 2: {
        // around pool sizes
        std::size_t p = c.oneof<std::size_t>({32, 64, 128, 256, 512, 1024, 4096, 16384});
        n             = p - 12 + c.below(16);
        break;
    }
    case 3: n = lim - c.below(10); break;
    default: n = c.below(lim + 1); break;
    }
    n = std::min(n, lim);
    if (n <= 24)
        f.payload = c.chance(1, 3) ? c.bytes(n) : c.bulk(n);
    else
        f.payload = c.bulk(n);
    if (f.type == 1 && n >= 4 && c.chance(1, 2)) {
        // look like a real method, the connection class included
        Bytes m;
        ref::put16(m, (uint16_t)c.oneof<int>({10, 20, 40, 50, 60, 85, 90}));
        ref::put16(m, (uint16_t)c.oneof<int>({50, 51, 40, 41, 10, 11, 20, 21, 30, 31, 60, 61, 70, 71, 80, 120}));
        f.payload.replace(0, 4, m);
    }
    // bytes that look like frame ends inside the payload
    if (n > 2 && c.chance(1, 4))
        f.payload[c.below(n)] = (char)0xCE;
    return f;
}

LoginSpec plainLogin(const std::string &vhost)
{
    LoginSpec s;
    s.so.response = Bytes("\0guest\0guest", 12);
    s.vhost       = vhost;
    return s;
}

LoginSpec genLogin(pbt::Ctx &c, const std::string &vhost, bool fancy)
{
    LoginSpec s;
    s.vhost        = vhost;
    s.so.mechanism = c.chance(1, 8) ? ref::genName(c, 255) : c.oneof<std::string>({"PLAIN", "AMQPLAIN", "EXTERNAL", ""});
    s.so.response  = c.bulk(c.size(0, 300));
    s.so.locale    = c.chance(1, 8) ? ref::genName(c, 255) : c.oneof<std::string>({"en_US", "", "de"});
    s.so.props     = ref::genTable(c, fancy ? 3 : 1, fancy ? 8 : 2);
    s.tok.channelMax = (uint16_t)c.edgy(16);
    s.tok.frameMax   = (uint32_t)c.edgy(32);
    s.tok.heartbeat  = (uint16_t)c.edgy(16);
    s.pipeline       = !c.flip();
    s.legacy         = c.chance(1, 6);
    s.cut            = genCutter(c);
    return s;
}

Sess openSession(World &w, int port, const LoginSpec &sp, bool tls, const std::string &src)
{
    Sess s;
    s.vhost = sp.vhost;
    s.cl    = w.login(port, sp, src, tls);
    w.c.check(s.cl->isOpen, "login for vhost ", pbt::show(sp.vhost, 60),
              " did not complete: ", outcomeOf(*s.cl));
    s.br = w.brokerOf(*s.cl);
    w.c.check(s.br && s.br->isOpen, "no broker connection belongs to the open client");
    s.down.base = s.cl->data.size();
    s.up.base   = s.br->data.size();
    return s;
}

void sendFrames(World &w, Sess &s, bool up, std::size_t n, const Cutter &cut,
                std::size_t maxFrame, std::size_t likely)
{
    Flow &fl = up ? s.up : s.down;
    if (!fl.partial.empty())
        return;
    Bytes out;
    for (std::size_t i = 0; i < n; ++i) {
        out += ref::encFrame(genFrame(w.c, maxFrame, likely));
        fl.frames++;
    }
    fl.whole += out;
    if (up)
        s.cl->send(out, cut);
    else
        s.br->send(out, cut);
    w.note(up ? "client " : "broker ", s.cl->srcPort, " sends ", n, " frames, ", out.size(), " bytes");
}

void finishPartial(World &w, Sess &s, bool up, const Cutter &cut)
{
    Flow &fl = up ? s.up : s.down;
    Peer &p  = up ? (Peer &)*s.cl : (Peer &)*s.br;
    if (fl.partial.empty()) {
        // send a strict prefix only
        Bytes f = ref::encFrame(genFrame(w.c, 150000, 400));
        fl.sent = 1 + w.c.below(f.size() - 1);
        if (w.c.chance(1, 3))
            fl.sent = 1 + w.c.below(7);
        fl.partial = f;
        p.send(f.substr(0, fl.sent), cut);
        w.note(up ? "client " : "broker ", s.cl->srcPort, " sends ", fl.sent, " of ", f.size(),
               " bytes of a frame");
        return;
    }
    p.send(fl.partial.substr(fl.sent), cut);
    w.note(up ? "client " : "broker ", s.cl->srcPort, " finishes its frame");
    fl.whole += fl.partial;
    fl.frames++;
    fl.partial.clear();
}

static std::string diff(const Bytes &want, const Bytes &got)
{
    std::size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i])
        ++i;
    std::ostringstream os;
    os << "expected " << want.size() << " bytes, got " << got.size() << ", first difference at " << i;
    os << " expected " << pbt::hex(want.substr(std::min(i, want.size()), 16))
       << " got " << pbt::hex(got.substr(std::min(i, got.size()), 16));
    return os.str();
}

void checkFlows(World &w, std::vector<Sess> &ss, const char *when, bool exact)
{
    auto done = [&] {
        for (auto &s : ss) {
            if (s.dead)
                continue;
            if (!s.cl->allSent() || !s.br->allSent())
                return false;
            if (s.br->data.size() - s.up.base < s.up.whole.size())
                return false;
            if (s.cl->data.size() - s.down.base < s.down.whole.size())
                return false;
        }
        return true;
    };
    w.until(done, 8.0);
    w.settle(3);
    for (auto &s : ss) {
        if (s.dead)
            continue;
        Bytes up = s.br->data.substr(s.up.base), down = s.cl->data.substr(s.down.base);
        w.c.check(up == s.up.whole, when, ": client to broker (client port ",
                  s.cl->srcPort, "): ", diff(s.up.whole, up));
        w.c.check(down == s.down.whole, when, ": broker to client (client port ",
                  s.cl->srcPort, "): ", diff(s.down.whole, down));
        if (exact)
            w.c.check(!s.cl->ended() && !s.br->ended(), when, ": an open session was closed");
    }
}

void probe(World &w, Sess &s, const char *when)
{
    Bytes f1 = ref::encFrame(8, 0, "probe-up"), f2 = ref::encFrame(8, 0, "probe-down");
    s.up.whole += f1;
    s.down.whole += f2;
    s.cl->send(f1);
    s.br->send(f2);
    std::vector<Sess> v = {s};
    checkFlows(w, v, when);
}

std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> v;
    std::string              cur;
    for (char ch : s) {
        if (ch == '\n') {
            v.push_back(cur);
            cur.clear();
        }
        else
            cur += ch;
    }
    if (!cur.empty())
        v.push_back(cur);
    return v;
}
std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> v;
    std::istringstream       is(s);
    std::string              t;
    while (is >> t)
        v.push_back(t);
    return v;
}
std::string lower(std::string s)
{
    for (auto &ch : s)
        ch = (char)tolower((unsigned char)ch);
    return s;
}
