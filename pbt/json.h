// A strict JSON reader.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
namespace js {
struct Value {
    char                          kind = 'n';  // n null, b bool, i integer, d other number, s string, o object, a array
    bool                          b    = false;
    uint64_t                      i    = 0;
    bool                          neg  = false;
    double                        d    = 0;
    std::string                   s;
    std::map<std::string, Value>  o;
    std::vector<Value>            a;
    bool has(const std::string &k) const { return o.count(k) > 0; }
    const Value &at(const std::string &k) const
    {
        static const Value none;
        auto               it = o.find(k);
        return it == o.end() ? none : it->second;
    }
    uint64_t u(const std::string &k) const { return at(k).i; }
};
struct Parser {
    const std::string &t;
    std::size_t        p = 0;
    std::string        err;
    explicit Parser(const std::string &text) : t(text) {}
    bool fail(const char *m)
    {
        if (err.empty())
            err = std::string(m) + " at " + std::to_string(p);
        return false;
    }
    void ws()
    {
        while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
            ++p;
    }
    static void utf8(std::string &s, unsigned c)
    {
        if (c < 0x80)
            s += (char)c;
        else if (c < 0x800) {
            s += (char)(0xC0 | c >> 6);
            s += (char)(0x80 | (c & 63));
        }
        else if (c < 0x10000) {
            s += (char)(0xE0 | c >> 12);
            s += (char)(0x80 | (c >> 6 & 63));
            s += (char)(0x80 | (c & 63));
        }
        else {
            s += (char)(0xF0 | c >> 18);
            s += (char)(0x80 | (c >> 12 & 63));
            s += (char)(0x80 | (c >> 6 & 63));
            s += (char)(0x80 | (c & 63));
        }
    }
    bool hex4(unsigned &v)
    {
        v = 0;
        if (t.size() - p < 4)
            return fail("short \\u");
        for (int k = 0; k < 4; ++k) {
            char c = t[p++];
            v      = v * 16;
            if (c >= '0' && c <= '9')
                v += c - '0';
            else if (c >= 'a' && c <= 'f')
                v += c - 'a' + 10;
            else if (c >= 'A' && c <= 'F')
                v += c - 'A' + 10;
            else
                return fail("bad \\u");
        }
        return true;
    }
    bool str(std::string &s)
    {
        if (p >= t.size() || t[p] != '"')
            return fail("string expected");
        ++p;
        while (p < t.size() && t[p] != '"') {
            unsigned char c = (unsigned char)t[p++];
            if (c < 0x20)
                return fail("control character in a string");
            if (c != '\\') {
                s += (char)c;
                continue;
            }
            if (p >= t.size())
                break;
            char     e = t[p++];
            unsigned v;
            switch (e) {
            case '"': s += '"'; break;
            case '\\': s += '\\'; break;
            case '/': s += '/'; break;
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u':
                if (!hex4(v))
                    return false;
                if (v >= 0xD800 && v < 0xDC00 && t.size() - p >= 6 && t[p] == '\\' && t[p + 1] == 'u') {
                    p += 2;
                    unsigned lo;
                    if (!hex4(lo))
                        return false;
                    v = 0x10000 + ((v - 0xD800) << 10) + (lo - 0xDC00);
                }
                utf8(s, v);
                break;
            default: return fail("bad escape");
            }
        }
        if (p >= t.size())
            return fail("unterminated string");
        ++p;
        return true;
    }
    bool value(Value &v, int depth = 0)
    {
        ws();
        if (depth > 50 || p >= t.size())
            return fail("value expected");
        char c = t[p];
        if (c == '{') {
            v.kind = 'o';
            ++p;
            ws();
            if (p < t.size() && t[p] == '}')
                return ++p, true;
            while (true) {
                std::string k;
                ws();
                if (!str(k))
                    return false;
                ws();
                if (p >= t.size() || t[p] != ':')
                    return fail("':' expected");
                ++p;
                if (v.o.count(k))
                    return fail("repeated key");
                if (!value(v.o[k], depth + 1))
                    return false;
                ws();
                if (p < t.size() && t[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < t.size() && t[p] == '}')
                    return ++p, true;
                return fail("',' or '}' expected");
            }
        }
        if (c == '[') {
            v.kind = 'a';
            ++p;
            ws();
            if (p < t.size() && t[p] == ']')
                return ++p, true;
            while (true) {
                v.a.emplace_back();
                if (!value(v.a.back(), depth + 1))
                    return false;
                ws();
                if (p < t.size() && t[p] == ',') {
                    ++p;
                    continue;
                }
                if (p < t.size() && t[p] == ']')
                    return ++p, true;
                return fail("',' or ']' expected");
            }
        }
        if (c == '"') {
            v.kind = 's';
            return str(v.s);
        }
        for (const char *w : {"true", "false", "null"})
            if (t.compare(p, std::string(w).size(), w) == 0) {
                p += std::string(w).size();
                v.kind = w[0] == 'n' ? 'n' : 'b';
                v.b    = w[0] == 't';
                return true;
            }
        std::size_t q = p;
        v.neg         = t[q] == '-';
        if (v.neg)
            ++q;
        std::size_t d0 = q;
        while (q < t.size() && isdigit((unsigned char)t[q]))
            ++q;
        if (q == d0)
            return fail("value expected");
        v.kind = 'i';
        v.i    = strtoull(t.c_str() + d0, nullptr, 10);
        if (q < t.size() && (t[q] == '.' || t[q] == 'e' || t[q] == 'E')) {
            v.kind  = 'd';
            char *e = nullptr;
            v.d     = strtod(t.c_str() + p, &e);
            q       = e - t.c_str();
        }
        p = q;
        return true;
    }
    bool whole(Value &v)
    {
        if (!value(v))
            return false;
        ws();
        return p == t.size() || fail("text after the value");
    }
};
}
#endif
