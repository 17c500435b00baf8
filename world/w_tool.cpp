// P25: the two programs themselves, as processes.
#include <deque>
#include <fstream>
#include "scen.h"
#include <cstring>
#include <fcntl.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <atomic>
#include <thread>
#include <unistd.h>

namespace {
std::string binDir()
{
    char    b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    return std::string(b, n > 0 ? n : 0).substr(0, std::string(b, n > 0 ? n : 0).rfind('/'));
}
// a directory for the case, gone with it
struct Scratch {
    std::string dir;
    Scratch()
    {
        char t[] = "/tmp/pbtool.XXXXXX";
        dir      = mkdtemp(t);
    }
    ~Scratch()
    {
        pid_t p = fork();
        if (p == 0) {
            execl("/bin/rm", "rm", "-rf", dir.c_str(), (char *)nullptr);
            _exit(1);
        }
        waitpid(p, nullptr, 0);
    }
};
struct Proc {
    pid_t       pid    = -1;
    int         out    = -1;
    int         status = -1;
    bool        done   = false;
    bool        wantErr = false;  // the text includes what goes to stderr
    std::string text;
    void        start(const std::vector<std::string> &argv, const std::string &cwd)
    {
        int p[2];
        if (pipe2(p, O_CLOEXEC))
            return;
        std::vector<char *> a;
        for (auto &s : argv)
            a.push_back((char *)s.c_str());
        a.push_back(nullptr);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(p[1], 1);
            int n = open("/dev/null", O_RDWR);
            dup2(n, 0);
            dup2(wantErr ? 1 : n, 2);
            if (chdir(cwd.c_str()))
                _exit(126);
            setenv("ASAN_OPTIONS", "detect_leaks=0:handle_abort=0", 1);
            for (int f = 3; f < 256; ++f)
                ::close(f);
            execv(a[0], a.data());
            _exit(127);
        }
        ::close(p[1]);
        out = p[0];
        fcntl(out, F_SETFL, O_NONBLOCK);
    }
    void pump()
    {
        char b[65536];
        if (out >= 0)
            for (;;) {
                ssize_t n = read(out, b, sizeof b);
                if (n > 0)
                    text.append(b, n);
                else {
                    if (n == 0) {
                        ::close(out);
                        out = -1;
                    }
                    break;
                }
            }
        if (!done && waitpid(pid, &status, WNOHANG) == pid)
            done = true;
    }
    bool finished() { return done && out < 0; }
    bool exitedWith(int c) const { return done && WIFEXITED(status) && WEXITSTATUS(status) == c; }
    void kill9()
    {
        if (!done && pid > 0) {
            ::kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            done = true;
        }
    }
    ~Proc()
    {
        kill9();
        if (out >= 0)
            ::close(out);
    }
};
template <class F>
bool await(F f, double s = 20)
{
    double e = pbt::realNow() + s;
    while (!f()) {
        if (pbt::realNow() > e)
            return false;
        usleep(300);
    }
    return true;
}
int unixListen(const std::string &path)
{
    int         fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a  = {};
    a.sun_family   = AF_UNIX;
    strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
    if (bind(fd, (sockaddr *)&a, sizeof a) || ::listen(fd, 4)) {
        ::close(fd);
        return -1;
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    return fd;
}
struct Fd {
    int fd = -1;
    ~Fd()
    {
        if (fd >= 0)
            ::close(fd);
    }
};
}

PBT_TARGET(ctl_any,
           "amqpprox_ctl run with generated arguments (spaces, newlines, quotes, empty, long, any byte) against a control socket "
           "answering 0-300 kB in generated fragments, waiting for each to be printed or not; or with nobody to talk to. "
           "Non-trivial: at least two arguments and a reply in at least two fragments.")
{
    Scratch     s;
    std::string sock = s.dir + "/sock";
    Proc        p;
    std::vector<std::string> argv = {binDir() + "/amqpprox_ctl", sock};
    std::size_t              na   = 1 + c.below(6);
    std::string              want;
    for (std::size_t i = 0; i < na; ++i) {
        std::string a;
        switch (c.weighted({4, 2, 1, 1})) {
        case 0: a = c.text(1 + c.below(10), "ABcd019_-/"); break;
        case 1: a = c.text(c.below(12), "a \t\"'\\$*\n%"); break;
        case 2:
            for (char ch : c.bytes(c.below(12)))
                a += ch ? ch : 'x';
            break;
        default: a = std::string(1 + c.below(60000), 'l'); break;
        }
        argv.push_back(a);
        want += (i ? " " : "") + a;
    }
    want += "\n";
    if (c.chance(1, 8)) {
        // nobody there
        unsigned k = (unsigned)c.below(4);
        Fd       l;
        if (k == 1) {
            Fd f{open(sock.c_str(), O_CREAT | O_WRONLY, 0600)};
        }
        else if (k == 2) {
            Fd g{unixListen(sock)};  // closed again at once
        }
        else if (k == 3) {
            l.fd = unixListen(sock);
            argv.resize(1 + c.below(2));
        }
        p.start(argv, s.dir);
        c.check(await([&] { p.pump(); return p.finished(); }), "the tool does not end though it cannot reach the proxy");
        c.check(!p.exitedWith(0), "the tool reports success though it ", k == 3 ? "had nothing to send" : "could not reach the proxy");
        c.check(p.text.empty(), "the tool printed ", pbt::show(p.text), " though it could not reach the proxy");
        c.label("unreachable");
        return;
    }
    Fd l{unixListen(sock)};
    c.check(l.fd >= 0, "harness: no control socket");
    p.start(argv, s.dir);
    Fd a;
    c.check(await([&] { a.fd = accept4(l.fd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); return a.fd >= 0 || (p.pump(), p.done); }) && a.fd >= 0, "the tool did not connect");
    std::string got;
    auto        rd = [&] {
        char b[65536];
        for (;;) {
            ssize_t n = read(a.fd, b, sizeof b);
            if (n <= 0)
                break;
            got.append(b, n);
        }
    };
    // it may be answered before all of the command has been read
    bool early = c.chance(1, 6);
    if (!early)
        c.check(await([&] { rd(); return got.size() >= want.size(); }), "only ", got.size(), " of ", want.size(), " bytes of the command arrive");
    std::size_t frags = c.below(12), sent = 0;
    std::string reply;
    for (std::size_t i = 0; i < frags; ++i) {
        std::string f = c.chance(1, 4) ? c.bulk(1 + c.below(c.flip() ? 30000 : 3000)) : c.chance(1, 3) ? std::string(c.oneof<std::size_t>({1023, 1024, 1025, 2048}), 'r') : c.bytes(1 + c.below(20));
        c.note("fragment of ", f.size());
        std::size_t o = 0;
        c.check(await([&] {
                    p.pump();
                    rd();
                    ssize_t n = send(a.fd, f.data() + o, f.size() - o, MSG_NOSIGNAL);
                    if (n > 0)
                        o += n;
                    return o == f.size();
                }),
                "the tool stopped reading after ", sent, " bytes of the reply");
        reply += f;
        sent += f.size();
        if (c.flip()) {
            c.check(await([&] { p.pump(); return p.text.size() >= reply.size(); }), "of a reply of ", reply.size(), " bytes so far the tool printed only ", p.text.size(), " while the connection is open");
            c.check(p.text == reply, "the tool printed something else than the reply");
        }
        c.check(!p.done, "the tool ended before the connection did");
    }
    c.check(await([&] { rd(); return got.size() >= want.size(); }), "only ", got.size(), " of ", want.size(), " bytes of the command arrive");
    c.check(got == want, "the command arrives as ", pbt::show(got), " instead of ", pbt::show(want));
    if (c.flip())
        usleep(2000);
    ::close(a.fd);
    a.fd = -1;
    c.check(await([&] { p.pump(); return p.finished(); }), "the tool does not end after the reply");
    c.check(p.text == reply, "the tool printed ", p.text.size(), " bytes instead of the reply's ", reply.size());
    c.check(p.exitedWith(0), "the tool did not end with status 0, but ", p.status);
    if (na >= 2 && frags >= 2)
        c.nontrivial();
}

namespace {
int unixConnect(const std::string &sock)
{
    int         fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a  = {};
    a.sun_family   = AF_UNIX;
    strncpy(a.sun_path, sock.c_str(), sizeof a.sun_path - 1);
    if (connect(fd, (sockaddr *)&a, sizeof a)) {
        close(fd);
        return -1;
    }
    return fd;
}
std::string control(pbt::Ctx &c, const std::string &sock, const std::string &cmd)
{
    Fd fd{unixConnect(sock)};
    if (fd.fd < 0)
        return "(unreachable)";
    std::string l = cmd + "\n", r;
    if (send(fd.fd, l.data(), l.size(), MSG_NOSIGNAL) < 0)
        return "(unreachable)";
    char b[4096];
    for (;;) {
        pollfd q = {fd.fd, POLLIN, 0};
        if (poll(&q, 1, 20000) <= 0)
            return r + "(no end)";
        ssize_t n = read(fd.fd, b, sizeof b);
        if (n <= 0)
            return r;
        r.append(b, n);
    }
}
bool listening(int port)
{
    Fd          f{socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)};
    sockaddr_in a = {};
    a.sin_family  = AF_INET;
    a.sin_port    = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return connect(f.fd, (sockaddr *)&a, sizeof a) == 0;
}
}

PBT_TARGET(main_any,
           "the proxy started with a generated subset of its options and values (missing, zero, empty, out of range, unknown); when "
           "it should run: logins for generated vhosts, an orderly exit or a kill, stale sockets and restarts on the same "
           "socket and port. Non-trivial: at least one of the simple-mode options was given.")
{
    Scratch s;
    World   w(c);
    w.exited = true;  // there is no proxy in this process
    std::string sock = s.dir + "/ctl";
    auto       *b    = w.addBroker("127.0.0.1");
    int         port = World::freePort();
    // 0 absent, 1 good, 2 "nothing" value, 3 nonsense
    auto level = [&] { return c.weighted({2, 6, 1, 1}); };
    unsigned lp = level(), dp = level(), dd = c.weighted({2, 6, 1}), ver = c.weighted({5, 3, 1, 1}), extra = c.weighted({12, 1, 1, 1});
    std::vector<std::string> opts;
    auto                     give = [&](const std::string &k, const std::string &v) {
        if (c.flip())
            opts.push_back("--" + k + "=" + v);
        else {
            opts.push_back("--" + k);
            opts.push_back(v);
        }
    };
    std::vector<int> order = {0, 1, 2, 3, 4};
    for (std::size_t i = order.size(); i-- > 1;)
        std::swap(order[i], order[c.below(i + 1)]);
    for (int o : order)
        switch (o) {
        case 0:
            if (lp)
                give("listenPort", lp == 1 ? std::to_string(port) : lp == 2 ? "0" : c.oneof<std::string>({"70000", "abc", "56.5"}));
            break;
        case 1:
            if (dp)
                give("destinationPort", dp == 1 ? std::to_string(b->lis.port) : dp == 2 ? "0" : c.oneof<std::string>({"70000", "x"}));
            break;
        case 2:
            if (dd == 1)
                give("destinationDNS", c.oneof<std::string>({"127.0.0.1", "lo.sys"}));
            else if (dd == 2) {
                opts.push_back("--destinationDNS");
                opts.push_back("");
            }
            break;
        case 3:
            if (ver)
                give("consoleVerbosity", ver == 1 ? std::to_string(c.below(6)) : ver == 2 ? "6" : "much");
            break;
        case 4:
            if (extra == 1)
                opts.push_back("--help");
            else if (extra == 2)
                opts.push_back("--unknownOption=1");
            else if (extra == 3)
                give("cleanupIntervalMs", "50");
            break;
        }
    bool given   = lp == 1 || dp == 1 || dd == 1;
    bool all     = lp == 1 && dp == 1 && dd == 1;
    bool mustRun = (all || !given) && lp != 3 && dp != 3 && ver < 2 && extra != 1 && extra != 2;
    std::vector<std::string> argv = {binDir() + "/amqpprox", "--controlSocket", sock, "--logDirectory", s.dir + "/logs"};
    argv.insert(argv.end(), opts.begin(), opts.end());
    std::string shown;
    for (auto &o : opts)
        shown += " " + o;
    c.note("options:", shown);
    // something left by an earlier run
    bool stale = c.chance(1, 3);
    if (stale) {
        Fd g{unixListen(sock)};
    }
    if (lp || dp || dd)
        c.nontrivial();
    std::size_t runs = mustRun ? 1 + c.below(3) : 1;
    for (std::size_t run = 0; run < runs; ++run) {
        Proc p;
        p.start(argv, s.dir);
        if (!mustRun) {
            c.check(await([&] { p.pump(); return p.done || control(c, sock, "BACKEND PRINT") != "(unreachable)"; }), "neither ends nor starts");
            c.check(p.done && !p.exitedWith(0), "the proxy starts with", shown, " given");
            if (lp == 1)
                c.check(!listening(port), "a proxy that refused to start is listening");
            c.label("refuses");
            return;
        }
        c.check(await([&] { p.pump(); return p.done || control(c, sock, "BACKEND PRINT") != "(unreachable)"; }), "the control socket does not appear");
        c.check(!p.done, "the proxy does not start with", shown, ": ", pbt::show(p.text, 300));
        if (!all) {
            c.check(!listening(port), "the proxy listens without being asked to");
            c.check(control(c, sock, "BACKEND PRINT").empty(), "a backend is configured without being asked for");
            c.label("plain start");
        }
        else {
            c.check(await([&] { return p.done || listening(port); }), "the proxy does not listen on --listenPort");
            c.label("simple mode");
            for (std::size_t k = 0, n = 1 + c.below(3); k < n; ++k) {
                std::string vhost = c.flip() ? "/" : c.bytes(c.below(10));
                std::size_t before = b->count();
                auto cl = w.connect(port, plainLogin(vhost));
                cl->begin();
                w.until([&] { return cl->isOpen || cl->gotClose || cl->ended(); }, 20);
                c.check(cl->isOpen, "a login for vhost ", pbt::show(vhost), " did not complete in simple mode: ", outcomeOf(*cl));
                c.check(b->count() == before + 1, "the destination was not used");
                c.check(b->last()->op.vhost == vhost, "the destination got another vhost");
                if (c.flip())
                    cl->close();
            }
        }
        if (run + 1 < runs || c.flip()) {
            if (c.flip()) {
                c.note("killed");
                p.kill9();
                c.label("killed");
            }
            else {
                std::string r = control(c, sock, "EXIT");
                c.check(await([&] { p.pump(); return p.done; }), "EXIT does not end the proxy");
                c.check(p.exitedWith(0), "the proxy ended with status ", p.status, " after EXIT");
                struct stat st;
                c.check(stat(sock.c_str(), &st) != 0, "the control socket is left behind after EXIT");
                c.label("exit");
            }
            for (auto &cl : w.clients)
                if (cl->fd >= 0)
                    cl->close();
            for (auto &bc : b->conns())
                if (bc->fd >= 0)
                    bc->close();
        }
    }
}

// P26: the control thread and the traffic thread at the same time
namespace {
std::string genBusyCommand(pbt::Ctx &c, const std::vector<int> &ports, int lport, const std::vector<unsigned> &kinds)
{
    auto b    = [&] { return "b" + std::to_string(c.below(5)); };
    auto f    = [&] { return "f" + std::to_string(c.below(3)); };
    auto v    = [&] { return "v" + std::to_string(c.below(3)); };
    auto port = [&] { return std::to_string(c.pick(ports)); };
    switch (kinds.empty() ? c.below(47) : c.pick(kinds)) {
    case 42: return "TLS " + c.oneof<std::string>({"INGRESS", "EGRESS"}) + " CERT_CHAIN_FILE " + tlsCertFile();
    case 43: return "TLS " + c.oneof<std::string>({"INGRESS", "EGRESS"}) + " KEY_FILE " + tlsKeyFile();
    case 44: return "TLS " + c.oneof<std::string>({"INGRESS", "EGRESS"}) + " CIPHERS SET " + c.oneof<std::string>({"ALL", "HIGH"});
    case 45: return "TLS " + c.oneof<std::string>({"INGRESS", "EGRESS"}) + " VERIFY_MODE " + c.oneof<std::string>({"NONE", "PEER"});
    case 46: return "TLS " + c.oneof<std::string>({"INGRESS", "EGRESS"}) + " CA_CERT_FILE " + tlsCertFile();
    case 34: return "AUTH SERVICE 127.0.0.1 " + std::to_string(lport) + " /x";
    case 35: return "AUTH ALWAYS_ALLOW";
    case 36: return "STAT SEND 127.0.0.1 " + port();
    case 37: return "STAT STOP SEND";
    case 38: return "STAT " + c.oneof<std::string>({"ENABLE", "DISABLE"}) + " per-source";
    case 39: return "STAT LISTEN " + c.oneof<std::string>({"json", "human"}) + " " + c.oneof<std::string>({"overall", "all", "vhost=v0", "backend=b0", "process", "bufferpool"});
    case 40: return "MAPHOSTNAME DNS";
    case 41: return "BACKEND ADD_DNS " + b() + " east localhost " + port();
    case 0: return "BACKEND ADD " + b() + " " + c.oneof<std::string>({"east", "west"}) + " 127.0.0.1 " + port();
    case 1: return "BACKEND DELETE " + b();
    case 2: return "BACKEND PRINT";
    case 3: return "FARM ADD " + f() + " round-robin " + b() + " " + b();
    case 4: return "FARM DELETE " + f();
    case 5: return "FARM PARTITION " + f() + " datacenter-affinity";
    case 6: return "FARM PRINT";
    case 7: return "MAP BACKEND " + v() + " " + b();
    case 8: return "MAP FARM " + v() + " " + f();
    case 9: return "MAP UNMAP " + v();
    case 10: return "MAP DEFAULT " + f();
    case 11: return "MAP PRINT";
    case 12: return "MAP REMOVE_DEFAULT";
    case 13: return "VHOST PAUSE " + v();
    case 14: return "VHOST UNPAUSE " + v();
    case 15: return "VHOST PRINT";
    case 16: return "VHOST BACKEND_DISCONNECT " + v();
    case 17: return "VHOST FORCE_DISCONNECT " + v();
    case 18: return "DATACENTER SET " + c.oneof<std::string>({"east", "west"});
    case 19: return "DATACENTER PRINT";
    case 20: return "LIMIT CONN_RATE VHOST " + v() + " " + std::to_string(1 + c.below(5));
    case 21: return "LIMIT CONN_RATE_ALARM " + c.oneof<std::string>({"DEFAULT", "VHOST " + v()}) + " " + std::to_string(1 + c.below(5));
    case 22: return "LIMIT DATA_RATE VHOST " + v() + " " + std::to_string(1000 + c.below(100000));
    case 23: return "LIMIT DISABLE " + c.oneof<std::string>({"CONN_RATE", "DATA_RATE", "CONN_RATE_ALARM", "DATA_RATE_ALARM"}) + c.oneof<std::string>({" VHOST " + v(), " DEFAULT"});
    case 24: return "LIMIT PRINT " + c.oneof<std::string>({"", v()});
    case 25: return "CONN";
    case 26: return "STAT";
    case 27: return "LIMIT CONN_RATE DEFAULT " + std::to_string(1 + c.below(5));
    case 28: return "LISTEN START " + std::to_string(lport);
    case 29: return "LISTEN STOP " + std::to_string(lport);
    case 30: return "AUTH PRINT";
    case 31: return "LOG CONSOLE 0";
    case 32: return "TLS INGRESS CIPHERS PRINT";
    default: return c.oneof<std::string>({"SESSION " + std::to_string(8 + c.below(12)) + " " + c.oneof<std::string>({"FORCE_DISCONNECT", "DISCONNECT_GRACEFUL"}), "HELP", "LIMIT DATA_RATE_ALARM DEFAULT 5000", "LIMIT DATA_RATE_ALARM VHOST " + v() + " 5000", "LISTEN START_SECURE " + std::to_string(lport), "TLS EGRESS CIPHERS PRINT", "LOG FILE 0"});
    }
}
}

PBT_TARGET(race_any,
           "the real program under the thread sanitizer: a generated series of control commands runs concurrently with logins, traffic "
           "and closes; sessions of a vhost no command touches must stay intact. Non-trivial: at least 10 commands and 3 logins.")
{
    Scratch s;
    World   w(c);
    w.exited         = true;
    std::string sock = s.dir + "/ctl";
    std::vector<int> ports;
    for (int i = 0; i < 3; ++i)
        ports.push_back(w.addBroker("127.0.0.1")->lis.port);
    int lport = World::freePort();
    {
        // Boost.Log comes uninstrumented: its reference counting is invisible to the sanitizer
        std::ofstream sup(s.dir + "/supp");
        sup << "race:boost::log\nrace:libboost_log.so\n";
    }
    setenv("TSAN_OPTIONS", ("suppressions=" + s.dir + "/supp:print_suppressions=0:halt_on_error=0:exitcode=66:report_signal_unsafe=0:log_path=" + s.dir + "/tsan").c_str(), 1);
    Proc p;
    p.start({binDir() + "/amqpprox", "--controlSocket", sock, "--logDirectory", s.dir + "/logs", "--cleanupIntervalMs", "20"}, s.dir);
    c.check(await([&] { p.pump(); return p.done || control(c, sock, "HELP") != "(unreachable)"; }), "the control socket does not appear");
    c.check(!p.done, "the proxy does not start");
    for (int i = 0; i < 3; ++i)
        control(c, sock, "BACKEND ADD b" + std::to_string(i) + " east 127.0.0.1 " + std::to_string(ports[i]));
    if (!c.chance(1, 4)) // logging orders the threads against each other
        control(c, sock, "LOG FILE 0");
    control(c, sock, "BACKEND ADD safe east 127.0.0.1 " + std::to_string(ports[0]));
    control(c, sock, "MAP BACKEND safe safe");
    control(c, sock, "FARM ADD f0 round-robin b0 b1 b2");
    control(c, sock, "MAP FARM v0 f0");
    control(c, sock, "MAP FARM v1 f0");
    control(c, sock, "MAP BACKEND v2 b1");
    int port = World::freePort();
    control(c, sock, "LISTEN START " + std::to_string(port));
    c.check(await([&] { return listening(port); }), "the proxy does not listen");
    control(c, sock, "TLS INGRESS CERT_CHAIN_FILE " + tlsCertFile());
    control(c, sock, "TLS INGRESS KEY_FILE " + tlsKeyFile());
    int secure = World::freePort();
    control(c, sock, "LISTEN START_SECURE " + std::to_string(secure));
    c.check(await([&] { return listening(secure); }), "the proxy does not listen");
    std::vector<std::string> cmds;
    // often only a few kinds of commands, the same ones over and over
    std::vector<unsigned> kinds;
    if (c.flip())
        for (std::size_t i = 0, n = 1 + c.below(6); i < n; ++i)
            kinds.push_back((unsigned)c.below(47));
    for (std::size_t i = 0, n = 5 + c.size(0, 195); i < n; ++i)
        cmds.push_back(genBusyCommand(c, ports, lport, kinds));
    std::atomic<std::size_t> at{0};
    std::atomic<bool>        stuck{false};
    std::deque<std::unique_ptr<Fd>> streams;
    for (auto &x : cmds)
        c.note(x);
    std::vector<std::shared_ptr<Client>> mine;
    auto sp = plainLogin("safe");
    auto keep = w.connect(port, sp);
    keep->begin();
    w.until([&] { return keep->isOpen || keep->ended() || keep->gotClose; }, 20);
    c.check(keep->isOpen, "a login for a vhost no command touches did not complete: ", outcomeOf(*keep));
    Sess safe;
    safe.cl = keep;
    safe.br = w.brokerOf(*keep);
    c.check(safe.br && safe.br->isOpen, "no broker has the safe session");
    safe.down.base = safe.cl->data.size();
    safe.up.base   = safe.br->data.size();
    std::thread t([&] {
        for (auto &x : cmds) {
            if (x.compare(0, 11, "STAT LISTEN") == 0) {
                // answered for as long as the connection stays
                if (streams.size() >= 6)
                    streams.pop_front();
                streams.emplace_back(new Fd{unixConnect(sock)});
                std::string l = x + "\n";
                if (send(streams.back()->fd, l.data(), l.size(), MSG_NOSIGNAL) < 0) {
                    stuck = true;
                    return;
                }
                ++at;
                continue;
            }
            std::string r = control(c, sock, x);
            if (r.size() >= 8 && (r == "(unreachable)" || r.substr(r.size() - 8) == "(no end)")) {
                stuck = true;
                return;
            }
            ++at;
        }
    });
    struct Joiner {
        std::thread &t;
        ~Joiner() { t.join(); }
    } joiner{t};
    std::size_t logins = 1;
    for (std::size_t k = 0; k < 200 && (at < cmds.size() || k < 8) && !stuck; ++k) {
        switch (c.weighted({4, 3, 2, 2})) {
        case 0:
            for (std::size_t i = 0, n = 1 + c.below(5); i < n; ++i) {
                bool tls = c.chance(1, 4);
                auto cl  = w.connect(tls ? secure : port, plainLogin(c.chance(1, 8) ? "safe" : "v" + std::to_string(c.below(4))), "", tls);
                cl->begin();
                mine.push_back(cl);
                ++logins;
            }
            break;
        case 1:
            sendFrames(w, safe, c.flip(), 1 + c.below(3), wholeCutter(), 5000, 500);
            break;
        case 2:
            if (!mine.empty()) {
                auto &cl = mine[c.below(mine.size())];
                if (cl->isOpen && cl->fd >= 0)
                    cl->send(ref::encFrame(genFrame(c, 3000, 200)));
            }
            break;
        default:
            if (!mine.empty()) {
                auto &cl = mine[c.below(mine.size())];
                if (cl->fd >= 0)
                    c.flip() ? cl->close() : cl->reset();
            }
            break;
        }
        for (std::size_t i = 0, n = 1 + c.below(30); i < n; ++i)
            if (!w.round())
                usleep(100);
    }
    c.check(await([&] { w.round(); return at == cmds.size() || stuck; }, 60) && !stuck, "command ", pbt::show(at < cmds.size() ? cmds[at] : ""), " got no answer");
    p.pump();
    c.check(!p.done, "the proxy went down, status ", p.status);
    std::vector<Sess> ss = {safe};
    w.until([&] { return safe.br->data.size() - safe.up.base >= safe.up.whole.size() && safe.cl->data.size() - safe.down.base >= safe.down.whole.size(); }, 20);
    c.check(safe.br->data.substr(safe.up.base) == safe.up.whole && safe.cl->data.substr(safe.down.base) == safe.down.whole, "a session no command touches lost or gained data");
    // nothing stays paused: every login comes to an end
    for (int i = 0; i < 4; ++i)
        control(c, sock, "VHOST UNPAUSE v" + std::to_string(i));
    w.until([&] {
        for (auto &cl : mine)
            if (cl->fd >= 0 && !cl->isOpen && !cl->gotClose && !cl->ended())
                return false;
        return true;
    }, 20);
    for (auto &cl : mine)
        c.check(cl->fd < 0 || cl->isOpen || cl->gotClose || cl->ended(), "a login to vhost ", cl->spec.vhost, " is left hanging: ", outcomeOf(*cl));
    control(c, sock, "EXIT");
    c.check(await([&] { p.pump(); return p.done; }, 30), "EXIT does not end the proxy");
    std::string report;
    if (FILE *f = popen(("cat " + s.dir + "/tsan* 2>/dev/null").c_str(), "r")) {
        char b[4096];
        while (std::size_t n = fread(b, 1, sizeof b, f))
            report.append(b, n);
        pclose(f);
    }
    c.proof(report.empty(), "the thread sanitizer reports: ", report.substr(0, 6000));
    c.check(p.exitedWith(0), "the proxy ended with status ", p.status);
    if (cmds.size() >= 10 && logins >= 3)
        c.nontrivial();
}

// ------------------------------------------------------------------------ logs
namespace {
const char *SEVERITY[] = {"FATAL", "ERROR", "WARN", "INFO", "DEBUG", "TRACE"};
struct Said {
    int         severity;
    std::string text;
    bool operator<(const Said &o) const { return std::tie(severity, text) < std::tie(o.severity, o.text); }
    bool operator==(const Said &o) const { return severity == o.severity && text == o.text; }
};
// the lines naming `mark`; -1 severity: a line that does not start properly
std::vector<Said> saidAbout(const std::string &all, const std::string &mark)
{
    std::vector<Said> r;
    for (auto &l : lines(all)) {
        if (!contains(l, mark))
            continue;
        Said        x{-1, ""};
        std::size_t best = std::string::npos;
        for (int i = 0; i < 6; ++i) {
            std::size_t p = l.find(SEVERITY[i]);
            if (p < best && (p == 0 || l[p - 1] == ' ')) {
                best       = p;
                x.severity = i;
            }
        }
        if (best != std::string::npos)
            x.text = l.substr(best);
        r.push_back(x);
    }
    std::sort(r.begin(), r.end());
    return r;
}
}

PBT_TARGET(logs_any,
           "the proxy started with and without a console verbosity, 1-2 runs on one log directory; up to 16 steps of LOG CONSOLE and "
           "LOG FILE with valid and invalid arguments and logins for new vhosts that the proxy has something to say about at every "
           "level; what the console and the log file show about each login is compared with the verbosities in force and with each "
           "other. Non-trivial: a verbosity was changed between two logins.")
{
    Scratch s;
    World   w(c);
    w.exited = true;  // there is no proxy in this process
    std::string sock = s.dir + "/ctl", logs = s.dir + "/logs";
    auto       *b    = w.addBroker("127.0.0.1");
    int         port = World::freePort();
    auto files = [&] {
        std::string r;
        FILE *f = popen(("cat " + logs + "/*.log 2>/dev/null").c_str(), "r");
        if (f) {
            char        buf[65536];
            std::size_t n;
            while ((n = fread(buf, 1, sizeof buf, f)) > 0)
                r.append(buf, n);
            pclose(f);
        }
        return r;
    };
    struct Mark {
        std::string name;
        int         con, file;        // verbosities when the login began
        int         maxCon, maxFile;  // highest since
        int         low;              // lowest of both since
        std::size_t run;
    };
    std::vector<Mark>        marks;
    std::vector<std::string> consoles;
    std::size_t              runs = 1 + c.below(2), serial = 0;
    bool                     changed = false;
    for (std::size_t run = 0; run < runs; ++run) {
        int  con = 0, file = 3;
        std::vector<std::string> argv = {binDir() + "/amqpprox", "--controlSocket", sock, "--logDirectory", logs};
        if (c.flip()) {
            con = (int)c.below(6);
            argv.push_back(c.flip() ? "--consoleVerbosity" : "-v");
            argv.push_back(std::to_string(con));
        }
        Proc p;
        p.wantErr = true;
        p.start(argv, s.dir);
        c.note("run with console verbosity ", con);
        c.check(await([&] { p.pump(); return p.done || control(c, sock, "BACKEND PRINT") != "(unreachable)"; }) && !p.done, "the proxy does not start");
        control(c, sock, "BACKEND ADD b0 dc1 127.0.0.1 " + std::to_string(b->lis.port));
        control(c, sock, "LIMIT CONN_RATE_ALARM DEFAULT 0");
        control(c, sock, "LISTEN START " + std::to_string(port));
        c.check(await([&] { p.pump(); return p.done || listening(port); }) && !p.done, "the proxy does not listen");
        auto level = [&] {
            for (auto &m : marks)
                if (m.run == run) {
                    m.maxCon  = std::max(m.maxCon, con);
                    m.maxFile = std::max(m.maxFile, file);
                    m.low     = std::min(m.low, std::min(con, file));
                }
        };
        std::size_t steps = 2 + c.size(0, 14);
        for (std::size_t k = 0; k < steps; ++k)
            switch (c.weighted({5, 3, 3, 2})) {
            case 0: {
                Mark m{"mark" + std::to_string(serial++) + "x", con, file, con, file, std::min(con, file), run};
                bool mapped = c.chance(1, 3);
                if (mapped)
                    control(c, sock, "MAP BACKEND " + m.name + " b0");
                marks.push_back(m);
                auto cl = w.connect(port, plainLogin(m.name));
                cl->begin();
                w.until([&] { p.pump(); return cl->isOpen || cl->gotClose || cl->ended(); }, 20);
                c.check(mapped ? cl->isOpen : cl->gotClose, "a login ended otherwise than expected: ", outcomeOf(*cl));
                if (cl->fd >= 0 && c.flip())
                    cl->close();
                c.note("login for ", m.name, " console ", con, " file ", file);
                break;
            }
            case 1:
                con = (int)c.range(0, 7) - 1;
                control(c, sock, "LOG CONSOLE " + std::to_string(con));
                changed |= !marks.empty();
                level();
                break;
            case 2:
                file = (int)c.range(0, 7) - 1;
                control(c, sock, "LOG FILE " + std::to_string(file));
                changed |= !marks.empty();
                level();
                break;
            case 3: control(c, sock, c.oneof<std::string>({"LOG", "LOG CONSOLE", "LOG FILE", "LOG CONSOLE much", "LOG FILE x5", "LOG OTHER 5", "LOG 5", "LOG CONSOLE CONSOLE 5"})); break;
            }
        control(c, sock, "EXIT");
        c.check(await([&] { p.pump(); return p.finished(); }), "EXIT does not end the proxy");
        consoles.push_back(p.text);
        for (auto &cl : w.clients)
            if (cl->fd >= 0)
                cl->close();
        for (auto &bc : b->conns())
            if (bc->fd >= 0)
                bc->close();
    }
    std::string all = files();
    for (auto &m : marks) {
        auto onCon = saidAbout(consoles[m.run], m.name), inFile = saidAbout(all, m.name);
        auto alarm = [&](const std::vector<Said> &v) {
            std::size_t n = 0;
            for (auto &x : v)
                n += x.severity == 2 && contains(x.text, "AMQPPROX_CONNECTION_LIMIT");
            return n;
        };
        c.check(alarm(onCon) == (m.con >= 2 ? 1u : 0u), "the console shows ", alarm(onCon), " warnings about ", m.name, " with console verbosity ", m.con);
        c.check(alarm(inFile) == (m.file >= 2 ? 1u : 0u), "the log file has ", alarm(inFile), " warnings about ", m.name, " with file verbosity ", m.file);
        for (auto &x : onCon)
            c.check(x.severity >= 0 && x.severity <= m.maxCon, "the console shows (verbosity ", m.con, "): ", x.text);
        for (auto &x : inFile)
            c.check(x.severity >= 0 && x.severity <= m.maxFile, "the log file has (verbosity ", m.file, "): ", x.text);
        auto upTo = [&](std::vector<Said> v) {
            v.erase(std::remove_if(v.begin(), v.end(), [&](const Said &x) { return x.severity > m.low; }), v.end());
            return v;
        };
        auto a = upTo(onCon), f = upTo(inFile);
        c.check(a == f, "of level ", m.low, " and above the console shows ", a.size(), " lines about ", m.name, ", the log file has ", f.size());
        if (m.low >= 5)
            c.label("trace");
        else if (m.low >= 1)
            c.label("compared");
    }
    if (changed)
        c.nontrivial();
}
