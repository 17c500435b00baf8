// Name resolution by the system, with names ending in ".sys" answered from a
// table, and independent of which addresses the machine has.
#include "sysdns.h"

#include <dlfcn.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>

#include <cstring>

std::map<std::string, std::vector<std::string>> &sysHosts()
{
    static std::map<std::string, std::vector<std::string>> m = {
        {"one.sys", {"10.1.1.1"}}, {"two.sys", {"10.2.2.2", "10.2.2.3"}}, {"six.sys", {"2001:db8::7"}}, {"lo.sys", {"127.0.0.1"}}};
    return m;
}

SysHook &sysHook()
{
    static SysHook h;
    return h;
}

extern "C" int getaddrinfo(const char *host, const char *service, const addrinfo *hints, addrinfo **res)
{
    using F       = int (*)(const char *, const char *, const addrinfo *, addrinfo **);
    static F    f = (F)dlsym(RTLD_NEXT, "getaddrinfo");
    std::string h = host ? host : "";
    addrinfo    num = {};
    if (hints)
        num = *hints;
    num.ai_flags &= ~AI_ADDRCONFIG;
    if (sysHook()) {
        int                                      err = 0;
        std::vector<std::pair<std::string, int>> at;
        if (sysHook()(h, service ? service : "", &err, &at)) {
            if (err)
                return err;
            addrinfo num = {};
            num.ai_socktype = SOCK_STREAM;
            num.ai_flags    = AI_NUMERICHOST | AI_NUMERICSERV;
            addrinfo *first = nullptr, **tail = &first;
            for (auto &a : at) {
                addrinfo *r = nullptr;
                if (int e = f(a.first.c_str(), std::to_string(a.second).c_str(), &num, &r))
                    return e;
                *tail = r;
                while (*tail)
                    tail = &(*tail)->ai_next;
            }
            *res = first;
            return 0;
        }
    }
    if (h.size() < 4 || h.compare(h.size() - 4, 4, ".sys"))
        return f(host, service, hints ? &num : nullptr, res);
    auto it = sysHosts().find(h);
    if (it == sysHosts().end())
        return EAI_NONAME;
    num.ai_flags = AI_NUMERICHOST;
    addrinfo *first = nullptr, **tail = &first;
    for (auto &a : it->second) {
        addrinfo *r = nullptr;
        int       e = f(a.c_str(), service, &num, &r);
        if (e)
            return e;
        *tail = r;
        while (*tail)
            tail = &(*tail)->ai_next;
    }
    *res = first;
    return 0;
}

SysRevHook &sysRevHook()
{
    static SysRevHook h;
    return h;
}

extern "C" int getnameinfo(const sockaddr *sa, socklen_t len, char *host, socklen_t hostLen, char *serv, socklen_t servLen, int flags)
{
    using F    = int (*)(const sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
    static F f = (F)dlsym(RTLD_NEXT, "getnameinfo");
    if (sysRevHook() && host && hostLen && !(flags & NI_NUMERICHOST)) {
        char b[INET6_ADDRSTRLEN] = {};
        if (sa->sa_family == AF_INET6)
            inet_ntop(AF_INET6, &((const sockaddr_in6 *)sa)->sin6_addr, b, sizeof b);
        else
            inet_ntop(AF_INET, &((const sockaddr_in *)sa)->sin_addr, b, sizeof b);
        int         err = 0;
        std::string name;
        if (sysRevHook()(b, &err, &name)) {
            if (err)
                return err;
            if (name.size() + 1 > hostLen)
                return EAI_OVERFLOW;
            memcpy(host, name.c_str(), name.size() + 1);
            return serv && servLen ? f(sa, len, nullptr, 0, serv, servLen, flags | NI_NUMERICSERV) : 0;
        }
    }
    return f(sa, len, host, hostLen, serv, servLen, flags);
}
