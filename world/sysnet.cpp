#include "sysnet.h"

#include <cerrno>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
std::mutex                         mtx;
std::map<int, int>                 conn;
std::map<int, std::pair<int, int>> acc;
std::map<int, int>                 sinks;  // how -> listening fd
int                                failures = 0;
volatile bool                      armed    = false;

int portOf(const sockaddr *a)
{
    if (a->sa_family == AF_INET)
        return ntohs(((const sockaddr_in *)a)->sin_port);
    if (a->sa_family == AF_INET6)
        return ntohs(((const sockaddr_in6 *)a)->sin6_port);
    return 0;
}
long rawName(int call, int fd, sockaddr *a, socklen_t *l)
{
    return syscall(call, fd, a, l);
}
int nameport(int call, int fd)
{
    sockaddr_storage s;
    socklen_t        l = sizeof s;
    if (rawName(call, fd, (sockaddr *)&s, &l))
        return 0;
    return portOf((sockaddr *)&s);
}
int sinkFd(int how)
{
    auto it = sinks.find(how);
    if (it != sinks.end())
        return it->second;
    int          fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in6 a  = {};
    a.sin6_family   = AF_INET6;
    a.sin6_addr     = in6addr_any;
    bind(fd, (sockaddr *)&a, sizeof a);
    listen(fd, 4096);
    return sinks[how] = fd;
}
// which of the sinks the socket is connected to
int sinkOf(int fd)
{
    int e = errno, how = 0;
    int p = nameport(SYS_getpeername, fd);
    if (p)
        for (auto &s : sinks)
            if (nameport(SYS_getsockname, s.second) == p)
                how = s.first;
    errno = e;
    return how;
}
}

void sysnet::failConnect(int port, int how)
{
    std::lock_guard<std::mutex> lg(mtx);
    if (how)
        conn[port] = how;
    else
        conn.erase(port);
    armed = true;
}
void sysnet::failAccept(int port, int n, int err)
{
    std::lock_guard<std::mutex> lg(mtx);
    acc[port] = {n, err};
    armed     = true;
}
int sysnet::acceptFailures()
{
    std::lock_guard<std::mutex> lg(mtx);
    return failures;
}
void sysnet::clear()
{
    std::lock_guard<std::mutex> lg(mtx);
    for (auto &s : sinks)
        close(s.second);
    sinks.clear();
    conn.clear();
    acc.clear();
    failures = 0;
    armed    = false;
}

extern "C" int connect(int fd, const sockaddr *a, socklen_t l)
{
    if (armed) {
        std::lock_guard<std::mutex> lg(mtx);
        auto                        it = conn.find(portOf(a));
        if (it != conn.end() && it->first) {
            if (it->second < 10000) {
                errno = it->second;
                return -1;
            }
            int to = nameport(SYS_getsockname, sinkFd(it->second));
            if (a->sa_family == AF_INET) {
                sockaddr_in b     = {};
                b.sin_family      = AF_INET;
                b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                b.sin_port        = htons(to);
                return (int)syscall(SYS_connect, fd, &b, sizeof b);
            }
            sockaddr_in6 b = {};
            b.sin6_family  = AF_INET6;
            b.sin6_addr    = in6addr_loopback;
            b.sin6_port    = htons(to);
            return (int)syscall(SYS_connect, fd, &b, sizeof b);
        }
    }
    return (int)syscall(SYS_connect, fd, a, l);
}
extern "C" int accept(int fd, sockaddr *a, socklen_t *l)
{
    if (armed) {
        std::lock_guard<std::mutex> lg(mtx);
        auto                        it = acc.find(nameport(SYS_getsockname, fd));
        if (it != acc.end() && it->first && it->second.first > 0) {
            // only when there is somebody to accept
            fd_set f;
            FD_ZERO(&f);
            if (fd < FD_SETSIZE) {
                FD_SET(fd, &f);
                timeval t = {0, 0};
                if (select(fd + 1, &f, nullptr, nullptr, &t) == 1) {
                    --it->second.first;
                    ++failures;
                    errno = it->second.second;
                    return -1;
                }
            }
        }
    }
    return (int)syscall(SYS_accept, fd, a, l);
}
extern "C" int getpeername(int fd, sockaddr *a, socklen_t *l)
{
    if (armed) {
        std::lock_guard<std::mutex> lg(mtx);
        if (sinkOf(fd) == sysnet::PEER_GONE) {
            errno = ENOTCONN;
            return -1;
        }
    }
    return (int)syscall(SYS_getpeername, fd, a, l);
}
extern "C" int getsockname(int fd, sockaddr *a, socklen_t *l)
{
    if (armed) {
        std::lock_guard<std::mutex> lg(mtx);
        if (sinkOf(fd) == sysnet::LOCAL_GONE) {
            errno = ENOBUFS;
            return -1;
        }
    }
    return (int)syscall(SYS_getsockname, fd, a, l);
}
extern "C" int setsockopt(int fd, int level, int name, const void *v, socklen_t l)
{
    if (armed && level == IPPROTO_TCP && name == TCP_NODELAY) {
        std::lock_guard<std::mutex> lg(mtx);
        if (sinkOf(fd) == sysnet::OPTIONS_FAIL) {
            errno = EINVAL;
            return -1;
        }
    }
    return (int)syscall(SYS_setsockopt, fd, level, name, v, l);
}
