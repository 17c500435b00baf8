#include "refamqp.h"
#include <sstream>

namespace ref {

const Bytes PROTOCOL_HEADER("AMQP\x00\x00\x09\x01", 8);
const Bytes LEGACY_HEADER("AMQP\x01\x01\x00\x09", 8);

bool Value::operator==(const Value &o) const
{
    return type == o.type && raw == o.raw && arr == o.arr && tab == o.tab;
}

void put8(Bytes &b, uint8_t v) { b += (char)v; }
void put16(Bytes &b, uint16_t v)
{
    put8(b, v >> 8);
    put8(b, v & 255);
}
void put32(Bytes &b, uint32_t v)
{
    put16(b, v >> 16);
    put16(b, v & 0xffff);
}
void put64(Bytes &b, uint64_t v)
{
    put32(b, v >> 32);
    put32(b, v & 0xffffffffu);
}
Bytes shortstr(const std::string &s)
{
    Bytes b;
    put8(b, (uint8_t)s.size());
    return b + s;
}
Bytes longstr(const std::string &s)
{
    Bytes b;
    put32(b, (uint32_t)s.size());
    return b + s;
}

static int scalarSize(char t)
{
    switch (t) {
    case 't':
    case 'b':
    case 'B':
        return 1;
    case 'U':
    case 's':
    case 'u':
        return 2;
    case 'I':
    case 'i':
    case 'f':
        return 4;
    case 'l':
    case 'L':
    case 'd':
    case 'T':
        return 8;
    case 'D':
        return 5;
    case 'V':
        return 0;
    }
    return -1;
}

Bytes encValue(const Value &v)
{
    Bytes b(1, v.type);
    switch (v.type) {
    case 'S':
    case 'x':
        return b + longstr(v.raw);
    case 'A':
        return b + encArray(v.arr);
    case 'F':
        return b + encTable(v.tab);
    default:
        return b + v.raw;
    }
}
Bytes encArray(const std::vector<Value> &a)
{
    Bytes b;
    for (auto &v : a)
        b += encValue(v);
    return longstr(b);
}
Bytes encTable(const Table &t)
{
    Bytes b;
    for (auto &f : t) {
        b += shortstr(f.first);
        b += encValue(f.second);
    }
    return longstr(b);
}

bool In::getn(std::size_t n, Bytes &v)
{
    if (e - p < n)
        return false;
    v = b.substr(p, n);
    p += n;
    return true;
}
bool In::get8(uint8_t &v)
{
    if (e - p < 1)
        return false;
    v = (uint8_t)b[p++];
    return true;
}
bool In::get16(uint16_t &v)
{
    uint8_t a, c;
    if (!get8(a) || !get8(c))
        return false;
    v = (uint16_t)(a << 8 | c);
    return true;
}
bool In::get32(uint32_t &v)
{
    uint16_t a, c;
    if (!get16(a) || !get16(c))
        return false;
    v = (uint32_t)a << 16 | c;
    return true;
}
bool In::shortstr(std::string &v)
{
    uint8_t n;
    return get8(n) && getn(n, v);
}
bool In::longstr(std::string &v)
{
    uint32_t n;
    return get32(n) && getn(n, v);
}
bool In::value(Value &v)
{
    uint8_t t;
    if (!get8(t))
        return false;
    v.type = (char)t;
    switch (t) {
    case 'S':
    case 'x':
        return longstr(v.raw);
    case 'A':
        return array(v.arr);
    case 'F':
        return table(v.tab);
    default: {
        int n = scalarSize((char)t);
        return n >= 0 && getn(n, v.raw);
    }
    }
}
bool In::table(Table &t)
{
    uint32_t n;
    if (!get32(n) || e - p < n)
        return false;
    In in(b, p, p + n);
    p += n;
    while (in.p < in.e) {
        std::string k;
        Value       v;
        if (!in.shortstr(k) || !in.value(v))
            return false;
        t.emplace_back(k, v);
    }
    return true;
}
bool In::array(std::vector<Value> &a)
{
    uint32_t n;
    if (!get32(n) || e - p < n)
        return false;
    In in(b, p, p + n);
    p += n;
    while (in.p < in.e) {
        Value v;
        if (!in.value(v))
            return false;
        a.push_back(v);
    }
    return true;
}

Bytes encFrame(const Frame &f)
{
    Bytes b;
    put8(b, f.type);
    put16(b, f.channel);
    put32(b, (uint32_t)f.payload.size());
    b += f.payload;
    put8(b, 0xCE);
    return b;
}
int takeFrame(Bytes &in, Frame &f)
{
    if (in.size() < 8)
        return 0;
    In i(in);
    uint32_t n;
    i.get8(f.type);
    i.get16(f.channel);
    i.get32(n);
    if (n > 10000000)
        return -1;
    if (in.size() < 8 + (std::size_t)n)
        return 0;
    f.payload = in.substr(7, n);
    if ((uint8_t)in[7 + n] != 0xCE)
        return -1;
    in.erase(0, 8 + (std::size_t)n);
    return 1;
}

Bytes method(uint16_t cls, uint16_t meth, const Bytes &args)
{
    Bytes b;
    put16(b, cls);
    put16(b, meth);
    return b + args;
}
bool isMethod(const Frame &f, uint16_t cls, uint16_t meth)
{
    In       i(f.payload);
    uint16_t a, b;
    return f.type == 1 && i.get16(a) && i.get16(b) && a == cls && b == meth;
}
int connMethod(const Frame &f)
{
    In       i(f.payload);
    uint16_t a, b;
    if (f.type == 1 && i.get16(a) && i.get16(b) && a == 10)
        return b;
    return -1;
}

Bytes encArgs(const Start &m)
{
    Bytes b;
    put8(b, m.major);
    put8(b, m.minor);
    return b + encTable(m.props) + longstr(m.mechanisms) + longstr(m.locales);
}
Bytes encArgs(const StartOk &m)
{
    return encTable(m.props) + shortstr(m.mechanism) + longstr(m.response) +
           shortstr(m.locale);
}
Bytes encArgs(const Tune &m)
{
    Bytes b;
    put16(b, m.channelMax);
    put32(b, m.frameMax);
    put16(b, m.heartbeat);
    return b;
}
Bytes encArgs(const Open &m)
{
    return shortstr(m.vhost) + shortstr("") + Bytes(1, '\0');
}
Bytes encArgs(const Close &m)
{
    Bytes b;
    put16(b, m.code);
    b += shortstr(m.text);
    put16(b, m.cls);
    put16(b, m.meth);
    return b;
}
bool decArgs(const Frame &f, Start &m)
{
    In i(f.payload);
    i.p = 4;
    return connMethod(f) == START && i.get8(m.major) && i.get8(m.minor) &&
           i.table(m.props) && i.longstr(m.mechanisms) &&
           i.longstr(m.locales) && i.p == i.e;
}
bool decArgs(const Frame &f, StartOk &m)
{
    In i(f.payload);
    i.p = 4;
    return connMethod(f) == STARTOK && i.table(m.props) &&
           i.shortstr(m.mechanism) && i.longstr(m.response) &&
           i.shortstr(m.locale) && i.p == i.e;
}
bool decArgs(const Frame &f, Tune &m)
{
    In  i(f.payload);
    int k = connMethod(f);
    i.p   = 4;
    return (k == TUNE || k == TUNEOK) && i.get16(m.channelMax) &&
           i.get32(m.frameMax) && i.get16(m.heartbeat) && i.p == i.e;
}
bool decArgs(const Frame &f, Open &m)
{
    In          i(f.payload);
    std::string r;
    uint8_t     bit;
    i.p = 4;
    return connMethod(f) == OPEN && i.shortstr(m.vhost) && i.shortstr(r) &&
           i.get8(bit) && i.p == i.e;
}
bool decArgs(const Frame &f, Close &m)
{
    In i(f.payload);
    i.p = 4;
    return connMethod(f) == CLOSE && i.get16(m.code) && i.shortstr(m.text) &&
           i.get16(m.cls) && i.get16(m.meth) && i.p == i.e;
}
Bytes connFrame(uint16_t meth, const Bytes &args)
{
    return encFrame(1, 0, method(10, meth, args));
}

// ------------------------------------------------------------------ generators
std::string genName(pbt::Ctx &c, std::size_t max)
{
    std::size_t n = c.size(0, max);
    if (c.chance(1, 4))
        return c.bulk(n);
    return c.text(n, "abcxyz_-. /:0129\"\\");
}

Value genValue(pbt::Ctx &c, int depth)
{
    static const std::string scalars = "tbBUsuIilLfdDTVSx";
    Value                    v;
    if (depth > 0 && c.chance(1, 4)) {
        if (c.flip()) {
            v.type = 'A';
            auto n = c.size(0, 4);
            for (uint64_t i = 0; i < n; ++i)
                v.arr.push_back(genValue(c, depth - 1));
        }
        else {
            v.type = 'F';
            v.tab  = genTable(c, depth - 1, 4);
        }
        return v;
    }
    v.type = scalars[c.below(scalars.size())];
    switch (v.type) {
    case 'S':
    case 'x':
        v.raw = c.bulk(c.size(0, c.chance(1, 8) ? 3000 : 40));
        break;
    case 't':
        v.raw = Bytes(1, (char)c.below(3));
        break;
    default: {
        int      n = scalarSize(v.type);
        uint64_t x = n ? c.edgy(n * 8 > 64 ? 64 : n * 8) : 0;
        Bytes    b;
        put64(b, x);
        v.raw = n <= 8 ? b.substr(8 - n) : b;
    }
    }
    return v;
}

Table genTable(pbt::Ctx &c, int depth, std::size_t maxFields)
{
    Table t;
    auto  n = c.size(0, maxFields);
    for (uint64_t i = 0; i < n; ++i)
        t.emplace_back(genName(c, c.chance(1, 10) ? 255 : 20),
                       genValue(c, depth));
    return t;
}

Value normalise(const Value &v)
{
    Value o = v;
    if (o.type == 'U')
        o.type = 's';
    if (o.type == 't' && o.raw[0] != 0)
        o.raw = Bytes(1, '\1');
    o.arr.clear();
    for (auto &x : v.arr)
        o.arr.push_back(normalise(x));
    o.tab = normalise(v.tab);
    return o;
}
Table normalise(const Table &t)
{
    Table o;
    for (auto &f : t)
        o.emplace_back(f.first, normalise(f.second));
    return o;
}

std::string show(const Value &v)
{
    std::ostringstream os;
    os << v.type << ":";
    if (v.type == 'A') {
        os << "[";
        for (auto &x : v.arr)
            os << show(x) << ",";
        os << "]";
    }
    else if (v.type == 'F')
        os << show(v.tab);
    else if (v.type == 'S')
        os << pbt::show(v.raw, 40);
    else
        os << pbt::hex(v.raw, 20);
    return os.str();
}
std::string show(const Table &t)
{
    std::ostringstream os;
    os << "{";
    for (auto &f : t)
        os << pbt::show(f.first, 30) << "=" << show(f.second) << ", ";
    os << "}";
    return os.str();
}

}
