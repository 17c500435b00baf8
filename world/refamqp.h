// Independent AMQP 0-9-1 reference codec (with the RabbitMQ field-type errata).
// Shares no code with the tree under test.
#ifndef REFAMQP_H
#define REFAMQP_H
#include "pbt.h"
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using Bytes = std::string;

struct Value;
using Table = std::vector<std::pair<std::string, Value>>;
struct Value {
    char               type = 'V';
    Bytes              raw;  // scalar payload as on the wire (strings: content)
    std::vector<Value> arr;
    Table              tab;
    bool               operator==(const Value &o) const;
    bool               operator!=(const Value &o) const { return !(*this == o); }
};

void  put8(Bytes &b, uint8_t v);
void  put16(Bytes &b, uint16_t v);
void  put32(Bytes &b, uint32_t v);
void  put64(Bytes &b, uint64_t v);
Bytes shortstr(const std::string &s);
Bytes longstr(const std::string &s);
Bytes encValue(const Value &v);  // with the type octet
Bytes encTable(const Table &t);  // with the length
Bytes encArray(const std::vector<Value> &a);

// Cursor-based decoding; every get returns false past the end.
struct In {
    const Bytes &b;
    std::size_t  p, e;
    explicit In(const Bytes &s)
    : b(s)
    , p(0)
    , e(s.size())
    {
    }
    In(const Bytes &s, std::size_t pos, std::size_t end)
    : b(s)
    , p(pos)
    , e(end)
    {
    }
    bool get8(uint8_t &v);
    bool get16(uint16_t &v);
    bool get32(uint32_t &v);
    bool getn(std::size_t n, Bytes &v);
    bool shortstr(std::string &v);
    bool longstr(std::string &v);
    bool value(Value &v);
    bool table(Table &t);
    bool array(std::vector<Value> &a);
};

struct Frame {
    uint8_t  type    = 1;
    uint16_t channel = 0;
    Bytes    payload;
    bool operator==(const Frame &o) const
    {
        return type == o.type && channel == o.channel && payload == o.payload;
    }
};
Bytes encFrame(const Frame &f);
inline Bytes encFrame(uint8_t t, uint16_t ch, const Bytes &p)
{
    return encFrame(Frame{t, ch, p});
}
// 1: parsed and consumed, 0: incomplete, -1: malformed
int takeFrame(Bytes &in, Frame &f);

enum {
    START    = 10,
    STARTOK  = 11,
    SECURE   = 20,
    SECUREOK = 21,
    TUNE     = 30,
    TUNEOK   = 31,
    OPEN     = 40,
    OPENOK   = 41,
    CLOSE    = 50,
    CLOSEOK  = 51
};
Bytes method(uint16_t cls, uint16_t meth, const Bytes &args = {});
bool  isMethod(const Frame &f, uint16_t cls, uint16_t meth);
// method id of a connection-class frame, or -1
int connMethod(const Frame &f);

struct Start {
    uint8_t     major = 0, minor = 9;
    Table       props;
    std::string mechanisms = "PLAIN AMQPLAIN", locales = "en_US";
};
struct StartOk {
    Table       props;
    std::string mechanism = "PLAIN", response, locale = "en_US";
};
struct Tune {
    uint16_t channelMax = 2047;
    uint32_t frameMax   = 131072;
    uint16_t heartbeat  = 60;
    bool     operator==(const Tune &o) const
    {
        return channelMax == o.channelMax && frameMax == o.frameMax &&
               heartbeat == o.heartbeat;
    }
};
struct Open {
    std::string vhost;
};
struct Close {
    uint16_t    code = 0;
    std::string text;
    uint16_t    cls = 0, meth = 0;
};
Bytes encArgs(const Start &);
Bytes encArgs(const StartOk &);
Bytes encArgs(const Tune &);
Bytes encArgs(const Open &);
Bytes encArgs(const Close &);
bool  decArgs(const Frame &, Start &);
bool  decArgs(const Frame &, StartOk &);
bool  decArgs(const Frame &, Tune &);
bool  decArgs(const Frame &, Open &);
bool  decArgs(const Frame &, Close &);
Bytes connFrame(uint16_t meth, const Bytes &args);  // whole frame, channel 0

extern const Bytes PROTOCOL_HEADER;  // AMQP 0 0 9 1
extern const Bytes LEGACY_HEADER;    // AMQP 1 1 0 9

// generators
std::string genName(pbt::Ctx &c, std::size_t max);
Value       genValue(pbt::Ctx &c, int depth);
Table       genTable(pbt::Ctx &c, int depth, std::size_t maxFields);
// What the proxy is entitled to turn a value into ('U' is sent on as 's', a
// boolean octet as 0/1).
Value       normalise(const Value &v);
Table       normalise(const Table &t);
std::string show(const Value &v);
std::string show(const Table &t);

}
#endif
