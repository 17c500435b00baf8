// P03: the codec against the independent reference codec.
#include "pbt.h"
#include "refamqp.h"

#include <amqpprox_buffer.h>
#include <amqpprox_fieldtable.h>
#include <amqpprox_fieldvalue.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_methods_closeok.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>
#include <amqpprox_types.h>

#include <cstring>
#include <memory>

using namespace Bloomberg::amqpprox;
using ref::Bytes;
using pbt::Ctx;

// Exactly sized heap memory, so that any access outside it is reported.
struct Mem {
    std::unique_ptr<char[]> p;
    std::size_t             n;
    explicit Mem(std::size_t k)
    : p(new char[k])
    , n(k)
    {
        memset(p.get(), 0x5a, k);
    }
    explicit Mem(const Bytes &b)
    : p(new char[b.size()])
    , n(b.size())
    {
        memcpy(p.get(), b.data(), n);
    }
    Buffer buf() { return Buffer((void *)p.get(), n); }
    Bytes  take(std::size_t k) const { return Bytes(p.get(), k); }
};

static uint64_t num(const Bytes &raw)
{
    uint64_t x = 0;
    for (char ch : raw)
        x = x << 8 | (uint8_t)ch;
    return x;
}
static int64_t snum(const Bytes &raw)
{
    uint64_t x = num(raw);
    unsigned s = 64 - 8 * raw.size();
    return s == 64 ? 0 : (int64_t)(x << s) >> s;
}
static Bytes big(uint64_t x, std::size_t n)
{
    Bytes b;
    ref::put64(b, x);
    return b.substr(8 - n);
}

static FieldTable toSut(const ref::Table &t);
static FieldValue toSut(const ref::Value &v)
{
    switch (v.type) {
    case 't': return FieldValue('t', v.raw[0] != 0);
    case 'b':
    case 's':
    case 'I':
    case 'l':
    case 'L': return FieldValue(v.type, snum(v.raw));
    case 'B':
    case 'u':
    case 'i':
    case 'T': return FieldValue(v.type, num(v.raw));
    case 'f':
    case 'd':
    case 'D':
    case 'x': return FieldValue(v.type, std::vector<uint8_t>(v.raw.begin(), v.raw.end()));
    case 'S': return FieldValue('S', v.raw);
    case 'A': {
        std::vector<FieldValue> a;
        for (auto &x : v.arr)
            a.push_back(toSut(x));
        return FieldValue('A', a);
    }
    case 'F': return FieldValue('F', std::make_shared<FieldTable>(toSut(v.tab)));
    }
    return FieldValue('V', false);
}
static FieldTable toSut(const ref::Table &t)
{
    FieldTable o;
    for (auto &f : t)
        o.pushField(f.first, toSut(f.second));
    return o;
}
static ref::Table fromSut(const FieldTable &t);
static ref::Value fromSut(const FieldValue &v)
{
    ref::Value o;
    o.type = v.type();
    switch (o.type) {
    case 't': o.raw = Bytes(1, v.value<bool>() ? 1 : 0); break;
    case 'b': o.raw = big((uint64_t)v.value<int64_t>(), 1); break;
    case 's': o.raw = big((uint64_t)v.value<int64_t>(), 2); break;
    case 'I': o.raw = big((uint64_t)v.value<int64_t>(), 4); break;
    case 'l':
    case 'L': o.raw = big((uint64_t)v.value<int64_t>(), 8); break;
    case 'B': o.raw = big(v.value<uint64_t>(), 1); break;
    case 'u': o.raw = big(v.value<uint64_t>(), 2); break;
    case 'i': o.raw = big(v.value<uint64_t>(), 4); break;
    case 'T': o.raw = big(v.value<uint64_t>(), 8); break;
    case 'f':
    case 'd':
    case 'D':
    case 'x': {
        auto b = v.value<std::vector<uint8_t>>();
        o.raw  = Bytes(b.begin(), b.end());
        break;
    }
    case 'S': o.raw = v.value<std::string>(); break;
    case 'A':
        for (auto &x : v.value<std::vector<FieldValue>>())
            o.arr.push_back(fromSut(x));
        break;
    case 'F': o.tab = fromSut(*v.value<std::shared_ptr<FieldTable>>()); break;
    }
    return o;
}
static ref::Table fromSut(const FieldTable &t)
{
    ref::Table o;
    for (std::size_t i = 0; i < t.numberFields(); ++i)
        o.emplace_back(t.fieldName(i), fromSut(t.fieldIndex(i)));
    return o;
}
// Sign-extension and width are part of the value, not only its low bytes.
static void sameNumbers(Ctx &c, const FieldTable &t, const ref::Table &r);
static void sameNumber(Ctx &c, const FieldValue &v, const ref::Value &r)
{
    switch (v.type()) {
    case 'b':
    case 's':
    case 'I':
    case 'l':
    case 'L':
        c.check(v.value<int64_t>() == snum(r.raw), "type ", v.type(), " carries ", snum(r.raw), ", decoded ", v.value<int64_t>());
        break;
    case 'B':
    case 'u':
    case 'i':
    case 'T':
        c.check(v.value<uint64_t>() == num(r.raw), "type ", v.type(), " carries ", num(r.raw), ", decoded ", v.value<uint64_t>());
        break;
    case 'A': {
        auto a = v.value<std::vector<FieldValue>>();
        for (std::size_t i = 0; i < a.size(); ++i)
            sameNumber(c, a[i], r.arr[i]);
        break;
    }
    case 'F': sameNumbers(c, *v.value<std::shared_ptr<FieldTable>>(), r.tab); break;
    }
}
static void sameNumbers(Ctx &c, const FieldTable &t, const ref::Table &r)
{
    for (std::size_t i = 0; i < t.numberFields(); ++i)
        sameNumber(c, t.fieldIndex(i), r[i].second);
}

static bool nontrivialTable(const ref::Table &t)
{
    std::set<char> types;
    bool           nested = false;
    for (auto &f : t) {
        types.insert(f.second.type);
        nested |= f.second.type == 'A' || f.second.type == 'F';
    }
    return types.size() >= 2 || nested;
}

// Encoding into exactly enough space gives the reference's bytes; one byte less
// fails without touching anything outside.
template <class F>
static void encodeSpaces(Ctx &c, const Bytes &want, const char *what, const F &enc)
{
    {
        std::size_t slack = c.below(3);
        Mem         m(want.size() + slack);
        Buffer      b  = m.buf();
        bool        ok = enc(b);
        c.check(ok, what, ": encoding into sufficient space failed (", want.size(), " bytes)");
        c.check(b.offset() == want.size(), what, ": encoded ", b.offset(), " bytes instead of ", want.size());
        c.check(m.take(want.size()) == want, what, ": wrong bytes ", pbt::hex(m.take(want.size()), 200), " instead of ",
                pbt::hex(want, 200));
        for (std::size_t i = 0; i < slack; ++i)
            c.check(m.p[want.size() + i] == 0x5a, what, ": wrote past what it reported");
    }
    if (!want.empty()) {
        std::size_t n = c.flip() ? c.below(want.size()) : want.size() - 1 - c.below(std::min<std::size_t>(5, want.size()));
        Mem         m(n);
        Buffer      b  = m.buf();
        bool        ok = enc(b);
        c.check(!ok, what, ": encoding ", want.size(), " bytes into ", n, " bytes reported success");
    }
}

PBT_TARGET(codec_table,
           "random field tables/arrays (nesting <= 5, every field type) decoded from and encoded into "
           "exactly-sized memory and compared with the reference codec. Non-trivial: >= 2 field types or nesting.")
{
    int        depth = (int)c.below(6);
    ref::Table t     = ref::genTable(c, depth, 10);
    if (c.chance(1, 8)) {
        // a long chain of containers
        ref::Value  v = ref::genValue(c, 0);
        std::size_t k = 1 + c.below(60);
        for (std::size_t i = 0; i < k; ++i) {
            ref::Value o;
            if (c.flip()) {
                o.type = 'A';
                o.arr.push_back(v);
            }
            else {
                o.type = 'F';
                o.tab.emplace_back("k", v);
            }
            v = o;
        }
        t.emplace_back("chain", v);
        c.label("deep chain");
    }
    Bytes      enc   = ref::encTable(t);
    Bytes      tail  = c.bytes(c.below(4));
    c.note(ref::show(t));
    if (nontrivialTable(t))
        c.nontrivial();
    {
        Mem        m(enc + tail);
        Buffer     b = m.buf();
        FieldTable s;
        c.check(Types::decodeFieldTable(&s, b), "well-formed table not decoded: ", ref::show(t));
        c.check(b.offset() == enc.size(), "decoding consumed ", b.offset(), " of ", enc.size());
        ref::Table got = fromSut(s), want = ref::normalise(t);
        c.check(got == want, "decoded ", ref::show(got), " instead of ", ref::show(want));
        sameNumbers(c, s, t);
        // what was decoded is sent on unchanged
        encodeSpaces(c, ref::encTable(want), "re-encoded table", [&](Buffer &o) { return Types::encodeFieldTable(o, s); });
        // lookups find the first field of that name
        if (!t.empty()) {
            const std::string &name = c.pick(t).first;
            std::size_t        i = 0, first = 0;
            while (t[first].first != name)
                ++first;
            FieldValue fv('V', false);
            c.check(s.findFieldIndex(&i, name) && i == first, "findFieldIndex");
            c.check(s.findFieldValue(&fv, name) && fromSut(fv) == want[first].second, "findFieldValue");
        }
        FieldValue fv('V', false);
        std::string absent = ref::genName(c, 300) + "~absent";
        c.check(!s.findFieldValue(&fv, absent), "found a field that is not there");
    }
    {
        FieldTable s = toSut(ref::normalise(t));
        encodeSpaces(c, ref::encTable(ref::normalise(t)), "table", [&](Buffer &o) { return Types::encodeFieldTable(o, s); });
    }
    {
        std::vector<ref::Value> a;
        for (auto &f : t)
            a.push_back(f.second);
        Bytes                   e = ref::encArray(a);
        Mem                     m(e + tail);
        Buffer                  b = m.buf();
        std::vector<FieldValue> s;
        c.check(Types::decodeFieldArray(&s, b), "well-formed array not decoded");
        c.check(b.offset() == e.size(), "array decoding consumed ", b.offset(), " of ", e.size());
        c.check(s.size() == a.size(), "array size");
        std::vector<ref::Value> norm;
        for (std::size_t i = 0; i < a.size(); ++i) {
            norm.push_back(ref::normalise(a[i]));
            c.check(fromSut(s[i]) == norm.back(), "array element ", i, ": ", ref::show(fromSut(s[i])), " instead of ",
                    ref::show(norm.back()));
        }
        encodeSpaces(c, ref::encArray(norm), "array", [&](Buffer &o) { return Types::encodeFieldArray(o, s); });
    }
}

static bool tooDeep(const Bytes &b)
{
    // conservative: how many nested containers the type octets could describe
    std::size_t n = 0;
    for (char ch : b)
        n += ch == 'A' || ch == 'F';
    return n > 30;
}

PBT_TARGET(codec_damaged,
           "well-formed tables with bytes changed, removed, inserted or cut off, decoded from exactly-sized memory: "
           "accepted exactly when the reference codec accepts, with the same values, never reading outside. "
           "Non-trivial: the damage hit a non-empty table.")
{
    ref::Table t   = ref::genTable(c, 3, 6);
    Bytes      enc = ref::encTable(t);
    std::size_t k  = 1 + c.below(3);
    if (!t.empty())
        c.nontrivial();
    for (std::size_t i = 0; i < k; ++i) {
        std::size_t p = enc.empty() ? 0 : c.below(enc.size());
        switch (c.weighted({3, 2, 2, 2, 3})) {
        case 0: if (!enc.empty()) enc[p] = (char)c.below(256); break;
        case 1: enc.erase(p, 1 + c.below(4)); break;
        case 2: enc.insert(p, c.bytes(1 + c.below(4))); break;
        case 3: if (!enc.empty()) enc[p] = c.oneof<char>({'A', 'F', 'S', 'x', 'l', 'T', 'D', 't', 'U', 'z'}); break;
        case 4: {
            // cut, with the outer length made to match
            enc.resize(p);
            if (enc.size() >= 4) {
                Bytes l;
                ref::put32(l, (uint32_t)enc.size() - 4);
                enc.replace(0, 4, l);
            }
            break;
        }
        }
    }
    c.note(pbt::hex(enc, 300));
    ref::In    in(enc);
    ref::Table want;
    bool       ok = in.table(want);
    Mem        m(enc);
    Buffer     b = m.buf();
    FieldTable s;
    bool       got = Types::decodeFieldTable(&s, b);
    c.label(ok ? "still well-formed" : "malformed");
    if (tooDeep(enc))
        return;
    c.check(got == ok, ok ? "a well-formed table was rejected: " : "a malformed table was accepted: ", pbt::hex(enc, 400));
    if (ok) {
        c.check(b.offset() == in.p, "consumed ", b.offset(), " instead of ", in.p);
        c.check(fromSut(s) == ref::normalise(want), "decoded ", ref::show(fromSut(s)), " instead of ", ref::show(ref::normalise(want)));
    }
}

PBT_TARGET(codec_method,
           "random connection methods decoded from reference bytes and encoded to be read by the reference, in "
           "exactly-sized memory, plus truncations. Non-trivial: every case with non-empty arguments.")
{
    auto decodeWhole = [&](auto &m, const Bytes &args, const char *what) {
        Bytes pl = ref::method(10, 1, args);
        Mem   mem(pl);
        Method me;
        c.check(Method::decode(&me, mem.p.get(), mem.n), what, ": method header");
        c.check(me.classType == 10 && me.methodType == 1 && me.length == args.size(), what, ": method fields");
        Buffer b(me.payload, me.length);
        using T = std::remove_reference_t<decltype(m)>;
        c.check(T::decode(&m, b), what, ": well-formed arguments not decoded: ", pbt::hex(args, 200));
        if (args.size()) {
            c.nontrivial();
            // any strict prefix lacks something
            std::size_t n = c.below(args.size());
            Mem         cut(args.substr(0, n));
            Buffer      cb = cut.buf();
            T           x;
            return std::make_pair(n, T::decode(&x, cb));
        }
        return std::make_pair(std::size_t(0), false);
    };
    auto enc = [&](const auto &m, int id, const Bytes &args, const char *what) {
        encodeSpaces(c, ref::method(10, (uint16_t)id, args), what, [&](Buffer &b) { return Method::encode(b, m); });
    };
    switch (c.below(8)) {
    case 0: {
        ref::Start s;
        s.major = (uint8_t)c.below(256);
        s.minor = (uint8_t)c.below(256);
        s.props = ref::normalise(ref::genTable(c, 2, 5));
        s.mechanisms = ref::genName(c, 80);
        s.locales    = ref::genName(c, 80);
        c.note("Start ", ref::show(s.props));
        methods::Start m;
        auto r = decodeWhole(m, ref::encArgs(s), "Start");
        c.check(!r.second, "Start cut to ", r.first, " bytes was accepted");
        c.check(m.versionMajor() == s.major && m.versionMinor() == s.minor && fromSut(m.properties()) == s.props &&
                    m.mechanisms() == s.mechanisms && m.locales() == s.locales, "Start fields differ");
        enc(m, ref::START, ref::encArgs(s), "Start");
        break;
    }
    case 1: {
        ref::StartOk s;
        s.props     = ref::normalise(ref::genTable(c, 2, 5));
        s.mechanism = ref::genName(c, 255);
        s.response  = c.bulk(c.size(0, 400));
        s.locale    = ref::genName(c, 255);
        c.note("StartOk ", ref::show(s.props));
        methods::StartOk m;
        auto r = decodeWhole(m, ref::encArgs(s), "StartOk");
        c.check(!r.second, "StartOk cut to ", r.first, " bytes was accepted");
        c.check(fromSut(m.properties()) == s.props && m.mechanism() == s.mechanism && m.response() == s.response &&
                    m.locale() == s.locale, "StartOk fields differ");
        enc(m, ref::STARTOK, ref::encArgs(s), "StartOk");
        // replaced credentials and properties
        std::string mech = ref::genName(c, 60), cred = c.bulk(c.size(0, 60));
        m.setAuthMechanism(mech);
        m.setCredentials(cred);
        s.mechanism = mech;
        s.response  = cred;
        enc(m, ref::STARTOK, ref::encArgs(s), "StartOk with replaced credentials");
        break;
    }
    case 2:
    case 3: {
        ref::Tune t;
        t.channelMax = (uint16_t)c.edgy(16);
        t.frameMax   = (uint32_t)c.edgy(32);
        t.heartbeat  = (uint16_t)c.edgy(16);
        c.note("Tune ", t.channelMax, " ", t.frameMax, " ", t.heartbeat);
        methods::Tune m;
        auto r = decodeWhole(m, ref::encArgs(t), "Tune");
        c.check(!r.second, "short Tune accepted");
        c.check(m.channelMax() == t.channelMax && m.frameMax() == t.frameMax && m.heartbeatInterval() == t.heartbeat, "Tune fields");
        enc(m, ref::TUNE, ref::encArgs(t), "Tune");
        methods::Tune m2(t.channelMax, t.frameMax, t.heartbeat);
        enc(m2, ref::TUNE, ref::encArgs(t), "Tune");
        methods::TuneOk k;
        auto r2 = decodeWhole(k, ref::encArgs(t), "TuneOk");
        c.check(!r2.second, "short TuneOk accepted");
        c.check(k.channelMax() == t.channelMax && k.frameMax() == t.frameMax && k.heartbeatInterval() == t.heartbeat, "TuneOk fields");
        enc(k, ref::TUNEOK, ref::encArgs(t), "TuneOk");
        break;
    }
    case 4: {
        ref::Open o{ref::genName(c, 255)};
        c.note("Open ", pbt::show(o.vhost));
        methods::Open m;
        auto r = decodeWhole(m, ref::encArgs(o), "Open");
        c.check(r.second == (r.first >= o.vhost.size() + 1), "Open cut to ", r.first, " bytes");
        c.check(m.virtualHost() == o.vhost, "vhost differs");
        enc(m, ref::OPEN, ref::encArgs(o), "Open");
        break;
    }
    case 5: {
        ref::Close x;
        x.code = (uint16_t)c.edgy(16);
        x.text = ref::genName(c, 255);
        x.cls  = (uint16_t)c.edgy(16);
        x.meth = (uint16_t)c.edgy(16);
        c.note("Close ", x.code, " ", pbt::show(x.text));
        methods::Close m;
        auto r = decodeWhole(m, ref::encArgs(x), "Close");
        c.check(!r.second, "short Close accepted");
        c.check(m.replyCode() == x.code && m.replyString() == x.text && m.classId() == x.cls && m.methodId() == x.meth, "Close fields");
        enc(m, ref::CLOSE, ref::encArgs(x), "Close");
        methods::Close m2;
        m2.setReply(x.code, x.text, x.cls, x.meth);
        enc(m2, ref::CLOSE, ref::encArgs(x), "Close");
        break;
    }
    case 6: {
        Bytes a = ref::shortstr(ref::genName(c, 255));
        c.note("OpenOk");
        methods::OpenOk m;
        decodeWhole(m, a, "OpenOk");
        enc(m, ref::OPENOK, Bytes(1, '\0'), "OpenOk");
        break;
    }
    case 7: {
        c.note("CloseOk / short method header");
        methods::CloseOk m;
        enc(m, ref::CLOSEOK, "", "CloseOk");
        Mem    s(c.below(4));
        Method me;
        c.check(!Method::decode(&me, s.p.get(), s.n), "a method of ", s.n, " bytes was accepted");
        break;
    }
    }
}

PBT_TARGET(codec_frame,
           "streams of random frames cut at a random point and decoded from exactly-sized memory, frames encoded and "
           "read by the reference, bad end octets, sizes around the limit. Non-trivial: two or more frames, or a size limit case.")
{
    std::size_t max = Frame::getMaxFrameSize();
    if (c.chance(1, 5)) {
        // around the limit, complete or not: the verdict may not depend on how much is there
        std::size_t total = max - 3 + c.below(7);
        Bytes       f     = ref::encFrame((uint8_t)c.oneof<int>({1, 2, 3, 8}), (uint16_t)c.edgy(16), c.bulk(total - 8));
        std::size_t have  = c.flip() ? f.size() : 8 + c.below(f.size() - 8);
        Mem         m(f.substr(0, have));
        Frame       fr;
        const void *end = nullptr;
        std::size_t rem = 12345;
        bool        threw = false, ok = false;
        try {
            ok = Frame::decode(&fr, &end, &rem, m.p.get(), m.n);
        }
        catch (std::runtime_error &) {
            threw = true;
        }
        c.note("frame of ", total, " bytes (limit ", max, "), ", have, " present");
        c.nontrivial();
        c.label("size limit");
        if (total > max)
            c.check(threw, "a frame of ", total, " bytes (limit ", max, ") with ", have, " bytes present was not refused");
        else
            c.check(!threw && ok == (have == total), "a frame of ", total, " bytes (limit ", max, ") with ", have,
                    " bytes present: threw=", threw, " ok=", ok);
        Bytes payload = c.bulk(total - 8);
        Mem   pm(payload), out(std::max(total, std::size_t(8)));
        Frame e;
        e.type = 1; e.channel = 7; e.length = (uint32_t)payload.size(); e.payload = pm.p.get();
        std::size_t w = 0;
        bool        eok = Frame::encode(out.p.get(), &w, e);
        c.check(eok == (total <= max), "encoding a frame of ", total, " bytes (limit ", max, ") gave ", eok);
        return;
    }
    std::vector<ref::Frame> fs;
    Bytes                   all;
    std::size_t             n = 1 + c.size(0, 5);
    for (std::size_t i = 0; i < n; ++i) {
        ref::Frame f;
        f.type    = (uint8_t)c.oneof<int>({1, 2, 3, 8, 0, 255, 4});
        f.channel = (uint16_t)c.edgy(16);
        f.payload = c.bulk(c.size(0, 2000));
        if (c.chance(1, 4) && !f.payload.empty())
            f.payload[c.below(f.payload.size())] = (char)0xCE;
        fs.push_back(f);
        // encode
        Mem   pm(f.payload);
        Frame e;
        e.type = f.type; e.channel = f.channel; e.length = (uint32_t)f.payload.size(); e.payload = pm.p.get();
        Mem         out(f.payload.size() + 8);
        std::size_t w = 0;
        c.check(Frame::encode(out.p.get(), &w, e), "frame not encoded");
        c.check(w == f.payload.size() + 8 && out.take(w) == ref::encFrame(f), "frame bytes differ");
        all += ref::encFrame(f);
    }
    if (n >= 2)
        c.nontrivial();
    std::size_t cut = c.flip() ? all.size() : c.below(all.size() + 1);
    int         bad = c.chance(1, 4) ? (int)c.below(n) : -1;
    if (bad >= 0) {
        std::size_t p = 0;
        for (int i = 0; i <= bad; ++i)
            p += fs[i].payload.size() + 8;
        all[p - 1] = (char)(0xCE ^ (1 + c.below(255)));
        c.label("bad end octet");
    }
    Mem         m(all.substr(0, cut));
    const char *at  = m.p.get();
    std::size_t left = m.n, i = 0, pos = 0;
    c.note(n, " frames, ", cut, " of ", all.size(), " bytes present, bad end in ", bad);
    while (true) {
        Frame       fr;
        const void *end = at;
        std::size_t rem = left;
        bool        ok = false, threw = false;
        try {
            ok = Frame::decode(&fr, &end, &rem, at, left);
        }
        catch (std::runtime_error &) {
            threw = true;
        }
        bool complete = i < n && left >= fs[i].payload.size() + 8;
        if (complete && (int)i == bad) {
            c.check(threw, "a frame with a wrong end octet was accepted");
            break;
        }
        c.check(!threw, "a good frame (or prefix) was refused");
        c.check(ok == complete, complete ? "a complete frame was not decoded" : "an incomplete frame was decoded");
        if (!complete) {
            c.check(end == at && rem == left, "decoding an incomplete frame consumed something");
            break;
        }
        std::size_t sz = fs[i].payload.size() + 8;
        c.check(fr.type == fs[i].type && fr.channel == fs[i].channel && fr.length == fs[i].payload.size() &&
                    Bytes((const char *)fr.payload, fr.length) == fs[i].payload, "frame ", i, " decoded wrongly");
        c.check((const char *)end == at + sz && rem == left - sz, "frame ", i, ": wrong end or remainder");
        at += sz;
        left -= sz;
        pos += sz;
        ++i;
    }
}
