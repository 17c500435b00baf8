#include "world.h"
#include "sysnet.h"

#include <amqpprox_control.h>
#include <amqpprox_dnsresolver.h>
#include <amqpprox_server.h>

#include <boost/asio.hpp>
#include <boost/log/core.hpp>
#include <boost/log/expressions.hpp>
#include <boost/log/attributes/value_extraction.hpp>
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/log/sinks/sync_frontend.hpp>

#include <arpa/inet.h>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

using namespace Bloomberg::amqpprox;

int amqpprox_real_main(int argc, char *argv[]);

extern "C" {
// ------------------------------------------------ replaced run() loops, logging
static Control                            *g_control = nullptr;
static std::function<void(Server *)>       g_body;

void __wrap__ZN9Bloomberg8amqpprox7Control3runEv(Control *self)
{
    __atomic_store_n(&g_control, self, __ATOMIC_SEQ_CST);
}
int __wrap__ZN9Bloomberg8amqpprox6Server3runEv(Server *self)
{
    while (!__atomic_load_n(&g_control, __ATOMIC_SEQ_CST))
        usleep(20);
    g_body(self);
    return 0;
}
void
__wrap__ZN9Bloomberg8amqpprox7Logging5startERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(
    const std::string &)
{
}
void __wrap__ZN9Bloomberg8amqpprox7Logging4stopEv() {}
void __wrap__ZN9Bloomberg8amqpprox7Logging19setConsoleVerbosityEi(int) {}
void __wrap__ZN9Bloomberg8amqpprox7Logging16setFileVerbosityEi(int) {}
}

std::function<void(const LogLine &)> g_logHook;
struct NullBackend : public boost::log::sinks::basic_sink_backend<
                         boost::log::sinks::synchronized_feeding> {
    void consume(const boost::log::record_view &r)
    {
        if (!g_logHook)
            return;
        LogLine l;
        if (auto v = boost::log::extract<int>("Severity", r))
            l.severity = v.get();
        if (auto v = boost::log::extract<std::string>("Message", r))
            l.text = v.get();
        if (auto v = boost::log::extract<std::string>("Vhost", r)) {
            l.hasVhost = true;
            l.vhost    = v.get();
        }
        if (auto v = boost::log::extract<uint64_t>("ConnID", r)) {
            l.hasConn = true;
            l.conn    = v.get();
        }
        g_logHook(l);
    }
};
static void setupLog(int level)
{
    static bool done = false;
    auto        core = boost::log::core::get();
    if (!done) {
        done = true;
        core->add_sink(
            boost::make_shared<
                boost::log::sinks::synchronous_sink<NullBackend>>());
    }
    core->set_filter(boost::log::expressions::attr<int>("Severity") <= level);
}

// -------------------------------------------------------------------- cutters
Cutter wholeCutter()
{
    return [](const Bytes &b) { return std::vector<Bytes>{b}; };
}
Cutter byteCutter()
{
    return [](const Bytes &b) {
        std::vector<Bytes> v;
        for (char ch : b)
            v.push_back(Bytes(1, ch));
        return v;
    };
}
Cutter genCutter(pbt::Ctx &c)
{
    switch (c.weighted({3, 2, 3, 2})) {
    case 0:
        return wholeCutter();
    case 1: {
        // single bytes for the first few, then the rest
        std::size_t n = c.range(1, 40);
        return [n](const Bytes &b) {
            std::vector<Bytes> v;
            std::size_t        i = 0;
            for (; i < b.size() && i < n; ++i)
                v.push_back(b.substr(i, 1));
            if (i < b.size())
                v.push_back(b.substr(i));
            return v;
        };
    }
    case 2: {
        // fixed pattern of piece sizes, repeated
        std::vector<std::size_t> pat;
        std::size_t              k = c.range(1, 4);
        for (std::size_t i = 0; i < k; ++i)
            pat.push_back(1 + c.size(0, 200));
        return [pat](const Bytes &b) {
            std::vector<Bytes> v;
            std::size_t        p = 0, i = 0;
            while (p < b.size()) {
                std::size_t n = pat[i++ % pat.size()];
                if (v.size() > 60)
                    n = b.size();
                v.push_back(b.substr(p, n));
                p += n;
            }
            return v;
        };
    }
    default: {
        // one cut near the end or the start
        bool        end = c.flip();
        std::size_t d   = c.range(1, 12);
        return [end, d](const Bytes &b) {
            if (b.size() <= d)
                return std::vector<Bytes>{b};
            std::size_t p = end ? b.size() - d : d;
            return std::vector<Bytes>{b.substr(0, p), b.substr(p)};
        };
    }
    }
}

// ----------------------------------------------------------------------- peers
static void prep(int fd)
{
    fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
Peer::~Peer() { close(); }
void Peer::close()
{
    if (ssl) {
        if (sslDone && !sslFailed)
            SSL_shutdown(ssl);
        SSL_free(ssl);
        ssl = nullptr;
    }
    if (fd >= 0)
        ::close(fd);
    fd = -1;
}
void Peer::reset()
{
    if (fd >= 0) {
        struct linger l = {1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    if (ssl) {
        SSL_free(ssl);
        ssl = nullptr;
    }
    if (fd >= 0)
        ::close(fd);
    fd = -1;
}
void Peer::shutdownWrite()
{
    if (fd >= 0)
        ::shutdown(fd, SHUT_WR);
}
static int portOf(const sockaddr_storage &a)
{
    return a.ss_family == AF_INET6
               ? ntohs(((const sockaddr_in6 *)&a)->sin6_port)
               : ntohs(((const sockaddr_in *)&a)->sin_port);
}
int Peer::localPort() const
{
    sockaddr_storage a;
    socklen_t        l = sizeof a;
    if (getsockname(fd, (sockaddr *)&a, &l))
        return 0;
    return portOf(a);
}
int Peer::remotePort() const
{
    sockaddr_storage a;
    socklen_t        l = sizeof a;
    if (getpeername(fd, (sockaddr *)&a, &l))
        return 0;
    return portOf(a);
}
std::string Peer::localIp() const
{
    sockaddr_storage a;
    socklen_t        l = sizeof a;
    if (getsockname(fd, (sockaddr *)&a, &l))
        return "";
    char b[64];
    if (a.ss_family == AF_INET6)
        inet_ntop(AF_INET6, &((sockaddr_in6 *)&a)->sin6_addr, b, sizeof b);
    else
        inet_ntop(AF_INET, &((sockaddr_in *)&a)->sin_addr, b, sizeof b);
    return b;
}
static unsigned g_fragment = 16384;
static bool     g_only12   = false;
void            tlsKnobs(unsigned fragment, bool only12)
{
    g_fragment = fragment;
    g_only12   = only12;
}
static void applyKnobs(SSL *ssl)
{
    SSL_set_max_send_fragment(ssl, g_fragment);
    if (g_only12)
        SSL_set_max_proto_version(ssl, TLS1_2_VERSION);
}
void Peer::startTlsServer(SSL_CTX *ctx)
{
    ssl = SSL_new(ctx);
    applyKnobs(ssl);
    SSL_set_fd(ssl, fd);
    SSL_set_accept_state(ssl);
}
void Peer::startTlsClient(SSL_CTX *ctx)
{
    ssl = SSL_new(ctx);
    applyKnobs(ssl);
    SSL_set_fd(ssl, fd);
    SSL_set_connect_state(ssl);
}

bool Peer::service()
{
    if (fd < 0)
        return false;
    bool progress = false;
    if (connecting) {
        int       e = 0;
        socklen_t l = sizeof e;
        getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l);
        if (e) {
            err        = e;
            connecting = false;
            close();
            onEnd();
            return true;
        }
        sockaddr_storage a;
        socklen_t        al = sizeof a;
        if (getpeername(fd, (sockaddr *)&a, &al))
            return false;
        connecting = false;
        progress   = true;
    }
    if (tlsAfterPrefix && !ssl && !ended()) {
        char    b[512];
        ssize_t n = ::recv(fd, b, sizeof b, MSG_PEEK);
        if (n == 0)
            eof = true;
        else if (n < 0 && errno != EAGAIN)
            err = errno;
        if (n <= 0) {
            if (ended())
                onEnd();
            return progress || ended();
        }
        std::size_t take = 0;
        if (wantLine) {
            Bytes got(b, n);
            auto  p = got.find("\r\n");
            if (got[0] == 0x16)
                take = 0;
            else if (p == Bytes::npos && n < (ssize_t)sizeof b)
                return progress;
            else
                take = p == Bytes::npos ? n : p + 2;
        }
        if (take) {
            n = ::recv(fd, b, take, 0);
            plainPrefix.append(b, n);
            wantLine = false;
            return true;
        }
        rawFirst.assign(b, std::min<ssize_t>(n, 16));
        startTlsServer(tlsAfterPrefix);
        progress = true;
    }
    if (ssl && !sslDone && !sslFailed) {
        ERR_clear_error();
        int r = SSL_do_handshake(ssl);
        if (r == 1) {
            sslDone  = true;
            progress = true;
        }
        else {
            int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                sslFailed = true;
                eof       = true;
                ERR_clear_error();
                onEnd();
                return true;
            }
            ERR_clear_error();
            return progress;
        }
    }
    if (!segs.empty() && !ended()) {
        Bytes  &s = segs.front();
        ssize_t n;
        if (ssl) {
            ERR_clear_error();
            n = SSL_write(ssl, s.data(), (int)s.size());
            if (n <= 0) {
                int e = SSL_get_error(ssl, (int)n);
                n     = -1;
                errno = (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE)
                            ? EAGAIN
                            : EPIPE;
                ERR_clear_error();
            }
        }
        else
            n = ::send(fd, s.data(), s.size(), MSG_NOSIGNAL);
        if (n > 0) {
            txTotal += n;
            s.erase(0, n);
            if (s.empty())
                segs.pop_front();
            progress = true;
        }
        else if (n < 0 && errno != EAGAIN && errno != EWOULDBLOCK) {
            // The peer is gone; what it already sent is still readable.
            segs.clear();
            progress = true;
        }
    }
    if (segs.empty() && closeWhenSent) {
        close();
        return true;
    }
    if (!stalled && !ended()) {
        std::size_t budget = readLimit ? readLimit : (1u << 22);
        char        b[65536];
        bool        got = false;
        while (budget) {
            ssize_t n;
            size_t  want = std::min(budget, sizeof b);
            if (ssl) {
                ERR_clear_error();
                n = SSL_read(ssl, b, (int)want);
                if (n <= 0) {
                    int e = SSL_get_error(ssl, (int)n);
                    if (e == SSL_ERROR_ZERO_RETURN)
                        n = 0;
                    else if (e == SSL_ERROR_WANT_READ ||
                             e == SSL_ERROR_WANT_WRITE) {
                        n     = -1;
                        errno = EAGAIN;
                    }
                    else
                        n = 0;  // truncated
                    ERR_clear_error();
                }
            }
            else
                n = ::recv(fd, b, want, 0);
            if (n > 0) {
                rx.append(b, n);
                rxTotal += n;
                budget -= n;
                progress = got = true;
            }
            else if (n == 0) {
                eof      = true;
                progress = true;
                break;
            }
            else if (errno == EAGAIN || errno == EWOULDBLOCK)
                break;
            else {
                err      = errno;
                progress = true;
                break;
            }
        }
        if (got)
            onData();
        if (ended())
            onEnd();
    }
    return progress;
}

Listener::~Listener()
{
    if (fd >= 0)
        ::close(fd);
}
bool Listener::service()
{
    if (fd < 0 || !accepting)
        return false;
    bool progress = false;
    while (true) {
        sockaddr_storage a;
        socklen_t        l = sizeof a;
        int              s = ::accept(fd, (sockaddr *)&a, &l);
        if (s < 0)
            break;
        prep(s);
        auto p = make();
        p->fd  = s;
        p->onAccepted();
        ++accepted;
        conns.push_back(p);
        progress = true;
    }
    for (std::size_t i = 0; i < conns.size(); ++i)
        progress |= conns[i]->service();
    return progress;
}

// ---------------------------------------------------------------- AMQP client
void Client::begin()
{
    Bytes h = spec.legacy ? ref::LEGACY_HEADER : ref::PROTOCOL_HEADER;
    if (spec.cut)
        send(h, spec.cut);
    else
        send(h);
}

void Client::onData()
{
    if (isOpen) {
        data += rx;
        rx.clear();
        return;
    }
    buf += rx;
    rx.clear();
    while (!isOpen) {
        ref::Frame f;
        Bytes      before = buf;
        int        r      = ref::takeFrame(buf, f);
        if (r < 0) {
            bad = true;
            return;
        }
        if (r == 0)
            return;
        frames.push_back(f);
        int m = ref::connMethod(f);
        order += (order.empty() ? "" : ",") + std::to_string(m);
        switch (m) {
        case ref::START:
            bad |= !ref::decArgs(f, start);
            gotStart = true;
            if (automatic) {
                Bytes s = ref::connFrame(ref::STARTOK, ref::encArgs(spec.so));
                spec.cut ? send(s, spec.cut) : send(s);
            }
            break;
        case ref::TUNE:
            bad |= !ref::decArgs(f, tune);
            gotTune = true;
            if (automatic) {
                Bytes a = ref::connFrame(ref::TUNEOK, ref::encArgs(spec.tok));
                Bytes o = ref::connFrame(ref::OPEN,
                                         ref::encArgs(ref::Open{spec.vhost}));
                sentTuneOk = true;
                if (spec.pipeline) {
                    spec.cut ? send(a + o, spec.cut) : send(a + o);
                }
                else {
                    spec.cut ? send(a, spec.cut) : send(a);
                    spec.cut ? send(o, spec.cut) : send(o);
                }
            }
            break;
        case ref::OPENOK:
            isOpen      = true;
            openOkFrame = ref::encFrame(f);
            data += buf;
            buf.clear();
            break;
        case ref::CLOSE:
            bad |= !ref::decArgs(f, close_);
            gotClose = true;
            break;
        default:
            break;
        }
    }
}

std::string outcomeOf(const Client &cl)
{
    std::ostringstream os;
    os << (cl.isOpen ? "open" : cl.gotClose ? "close" : "none");
    if (cl.gotClose)
        os << "(" << cl.close_.code << " " << pbt::show(cl.close_.text, 60)
           << ")";
    if (cl.eof)
        os << "+eof";
    if (cl.err)
        os << "+err" << cl.err;
    if (cl.bad)
        os << "+malformed";
    os << " seen=" << cl.order;
    return os.str();
}

// ---------------------------------------------------------------- fake brokers
std::vector<std::shared_ptr<BrokerConn>> Broker::conns() const
{
    std::vector<std::shared_ptr<BrokerConn>> v;
    for (auto &p : lis.conns)
        v.push_back(std::static_pointer_cast<BrokerConn>(p));
    return v;
}
std::shared_ptr<BrokerConn> Broker::last() const
{
    if (lis.conns.empty())
        return nullptr;
    return std::static_pointer_cast<BrokerConn>(lis.conns.back());
}

void BrokerConn::onAccepted()
{
    Broker &b = *w->brokers[backend];
    if (b.tls) {
        tlsAfterPrefix = b.tlsCtx ? b.tlsCtx : tlsServerCtx();
        wantLine       = b.expectProxy;
    }
}

void BrokerConn::onData()
{
    wire += rx;
    if (isOpen) {
        data += rx;
        rx.clear();
        return;
    }
    buf += rx;
    rx.clear();
    feed();
}

void BrokerConn::feed()
{
    Broker &b    = *w->brokers[backend];
    auto    out  = [&](const Bytes &s) { b.cut ? send(s, b.cut) : send(s); };
    auto    step = [&](Step s, const Bytes &normal) {
        if (b.dropAt == s) {
            closeWhenSent = true;
            return;
        }
        if (b.holdAt == s)
            return;
        if (b.rawAt == s) {
            out(b.rawBytes);
            return;
        }
        if (b.closeAt == s) {
            out(ref::connFrame(ref::CLOSE, ref::encArgs(b.closeWith)));
            return;
        }
        out(normal);
    };
    if (b.tls && !peekProxy) {
        proxyLine = plainPrefix;
        peekProxy = true;
    }
    if (b.expectProxy && !peekProxy) {
        auto p = buf.find("\r\n");
        if (p == Bytes::npos)
            return;
        proxyLine = buf.substr(0, p + 2);
        buf.erase(0, p + 2);
        peekProxy = true;
    }
    if (!gotHeader) {
        if (buf.size() < 8)
            return;
        header = buf.substr(0, 8);
        buf.erase(0, 8);
        gotHeader = true;
        if (header != ref::PROTOCOL_HEADER)
            bad = true;
        if (b.automatic)
            step(S_HEADER, ref::connFrame(ref::START, ref::encArgs(b.start)));
    }
    while (!isOpen) {
        ref::Frame f;
        int        r = ref::takeFrame(buf, f);
        if (r < 0) {
            bad = true;
            return;
        }
        if (r == 0)
            return;
        frames.push_back(f);
        int m = ref::connMethod(f);
        order += (order.empty() ? "" : ",") + std::to_string(m);
        switch (m) {
        case ref::STARTOK:
            bad |= !ref::decArgs(f, so);
            gotStartOk = true;
            if (b.automatic)
                step(S_STARTOK,
                     ref::connFrame(ref::TUNE, ref::encArgs(b.tune)));
            break;
        case ref::TUNEOK:
            bad |= !ref::decArgs(f, tok);
            gotTuneOk = true;
            if (b.automatic &&
                (b.dropAt == S_TUNEOK || b.closeAt == S_TUNEOK ||
                 b.rawAt == S_TUNEOK))
                step(S_TUNEOK, "");
            break;
        case ref::OPEN:
            bad |= !ref::decArgs(f, op);
            gotOpen = true;
            if (b.automatic && b.closeAt != S_TUNEOK && b.dropAt != S_TUNEOK &&
                b.rawAt != S_TUNEOK) {
                bool normal = b.dropAt != S_OPEN && b.holdAt != S_OPEN &&
                              b.rawAt != S_OPEN && b.closeAt != S_OPEN;
                step(S_OPEN, b.openOk + b.extraAfterOpenOk);
                if (normal) {
                    isOpen = true;
                    data += buf;
                    buf.clear();
                }
            }
            break;
        case ref::CLOSE:
            gotClose = true;
            break;
        case ref::CLOSEOK:
            gotCloseOk = true;
            break;
        }
    }
}

// ------------------------------------------------------------------ auth fake
void HttpConn::onData()
{
    buf += rx;
    rx.clear();
    if (done)
        return;
    auto p = buf.find("\r\n\r\n");
    if (p == Bytes::npos)
        return;
    HttpReq            r;
    std::istringstream is(buf.substr(0, p));
    std::string        line;
    std::getline(is, line);
    std::istringstream l(line);
    l >> r.method >> r.target;
    while (std::getline(is, line)) {
        auto q = line.find(':');
        if (q == std::string::npos)
            continue;
        std::string k = line.substr(0, q), v = line.substr(q + 1);
        for (auto &ch : k)
            ch = (char)tolower(ch);
        while (!v.empty() && (v[0] == ' '))
            v.erase(0, 1);
        while (!v.empty() && (v.back() == '\r'))
            v.pop_back();
        r.headers[k] = v;
    }
    std::size_t n = strtoul(r.headers["content-length"].c_str(), nullptr, 10);
    if (buf.size() < p + 4 + n)
        return;
    r.body = buf.substr(p + 4, n);
    r.conn = this;
    done   = true;
    w->httpReqs.push_back(r);
    HttpAction a = w->http ? w->http(r) : HttpAction{};
    if (a.dropNow) {
        close();
        return;
    }
    if (a.hold)
        return;
    if (a.cut)
        send(a.bytes, a.cut);
    else
        send(a.bytes);
    if (a.closeAfter)
        closeWhenSent = true;
}

static int makeListen(const std::string &ip, int port, bool doListen, int *outPort)
{
    bool v6 = ip.find(':') != std::string::npos;
    int  fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (fd < 0)
        return -1;
    int r;
    if (port) {
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    }
    if (v6) {
        sockaddr_in6 a = {};
        a.sin6_family  = AF_INET6;
        a.sin6_port    = htons(port);
        inet_pton(AF_INET6, ip.c_str(), &a.sin6_addr);
        r = bind(fd, (sockaddr *)&a, sizeof a);
    }
    else {
        sockaddr_in a = {};
        a.sin_family  = AF_INET;
        a.sin_port    = htons(port);
        inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
        r = bind(fd, (sockaddr *)&a, sizeof a);
    }
    if (r || (doListen && ::listen(fd, 128))) {
        ::close(fd);
        return -1;
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    sockaddr_storage s;
    socklen_t        l = sizeof s;
    getsockname(fd, (sockaddr *)&s, &l);
    *outPort = portOf(s);
    return fd;
}

void Broker::setRefusing(bool r)
{
    if (r == refusing)
        return;
    refusing      = r;
    lis.accepting = !r;
    if (!r) {
        if (::listen(lis.fd, 128))
            w->c.discard();
        return;
    }
    ::close(lis.fd);
    int p;
    lis.fd = makeListen(lis.ip, lis.port, false, &p);
    if (lis.fd < 0)
        w->c.discard();  // somebody else got the port
}

int World::startHttp()
{
    auto l = std::make_unique<Listener>();
    l->ip  = "127.0.0.1";
    l->fd  = makeListen(l->ip, 0, true, &l->port);
    World *self = this;
    l->make     = [self] {
        auto h = std::make_shared<HttpConn>();
        h->w   = self;
        return h;
    };
    httpLis = l.get();
    listeners.push_back(std::move(l));
    return httpLis->port;
}

Broker *World::addBroker(const std::string &ip, bool refusing)
{
    auto b      = std::make_unique<Broker>();
    b->w        = this;
    b->index    = (int)brokers.size();
    b->refusing = refusing;
    b->lis.ip   = ip;
    b->lis.fd   = makeListen(ip, 0, !refusing, &b->lis.port);
    if (b->lis.fd < 0)
        c.fail("harness: cannot bind a fake broker on " + ip);
    b->lis.accepting = !refusing;
    int    idx       = b->index;
    World *self      = this;
    b->lis.make      = [self, idx] {
        auto bc     = std::make_shared<BrokerConn>();
        bc->w       = self;
        bc->backend = idx;
        bc->serial  = self->serial++;
        return bc;
    };
    brokers.push_back(std::move(b));
    return brokers.back().get();
}

Broker *World::addBackend(const std::string &name,
                          const std::string &dc,
                          const std::string &flags,
                          const std::string &ip,
                          bool               refusing)
{
    Broker *b = addBroker(ip, refusing);
    b->name   = name;
    if (flags.find("SEND-PROXY") != std::string::npos)
        b->expectProxy = true;
    if (flags.find("TLS") != std::string::npos)
        b->tls = true;
    std::string r = ctl("BACKEND ADD " + name + " " + dc + " " + ip + " " +
                        std::to_string(b->lis.port) +
                        (flags.empty() ? "" : " " + flags));
    return b;
}

std::shared_ptr<Client> World::connect(int                port,
                                       const LoginSpec   &spec,
                                       const std::string &srcIp,
                                       bool               tls)
{
    auto cl  = std::make_shared<Client>();
    cl->spec = spec;
    int fd   = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    prep(fd);
    if (!srcIp.empty()) {
        sockaddr_in a = {};
        a.sin_family  = AF_INET;
        inet_pton(AF_INET, srcIp.c_str(), &a.sin_addr);
        if (bind(fd, (sockaddr *)&a, sizeof a))
            c.fail("harness: cannot bind client source " + srcIp);
    }
    sockaddr_in a = {};
    a.sin_family  = AF_INET;
    a.sin_port    = htons(port);
    inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
    cl->fd = fd;
    if (::connect(fd, (sockaddr *)&a, sizeof a)) {
        if (errno == EINPROGRESS)
            cl->connecting = true;
        else {
            cl->err = errno;
            cl->close();
        }
    }
    cl->srcPort = cl->fd >= 0 ? cl->localPort() : 0;
    cl->srcIp   = srcIp.empty() ? "127.0.0.1" : srcIp;
    if (tls && cl->fd >= 0)
        cl->startTlsClient(tlsClientCtx());
    clients.push_back(cl);
    return cl;
}

std::shared_ptr<Client> World::login(int                port,
                                     const LoginSpec   &spec,
                                     const std::string &srcIp,
                                     bool               tls)
{
    auto cl = connect(port, spec, srcIp, tls);
    cl->begin();
    until([&] { return cl->isOpen || cl->ended() || cl->bad; });
    return cl;
}

std::vector<std::shared_ptr<BrokerConn>> World::allBrokerConns()
{
    std::vector<std::shared_ptr<BrokerConn>> v;
    for (auto &b : brokers)
        for (auto &x : b->conns())
            v.push_back(x);
    return v;
}
std::size_t World::brokerConnCount()
{
    std::size_t n = 0;
    for (auto &b : brokers)
        n += b->lis.accepted;
    return n;
}

std::shared_ptr<BrokerConn> World::brokerOf(const Client &cl)
{
    std::string suffix = ":" + std::to_string(cl.srcPort);
    std::shared_ptr<BrokerConn> exact, loose;
    for (auto &x : allBrokerConns()) {
        for (auto &f : x->so.props)
            if (f.first == "amqpprox_client" && f.second.type == 'S') {
                std::string v = f.second.raw;
                if (v.size() > 4 && v.compare(v.size() - 4, 4, " TLS") == 0)
                    v.resize(v.size() - 4);
                if (v == cl.srcIp + suffix)
                    exact = x;
                else if (v.size() > suffix.size() &&
                         v.compare(v.size() - suffix.size(), suffix.size(), suffix) == 0)
                    loose = x;
            }
    }
    return exact ? exact : loose;
}

// --------------------------------------------------------------------- running
bool World::round()
{
    bool progress = false;
    if (!exited) {
        try {
            // bounded, so that a spinning session cannot hold everything up
            for (int i = 0; i < 2000 && !freezeServer; ++i) {
                if (!server->ioContext().poll_one())
                    break;
                progress = true;
            }
        }
        catch (const std::exception &e) {
            exited = true;
            c.fail(std::string("an exception escaped the proxy's event loop "
                               "(the process would exit): ") +
                   e.what());
        }
        if (server->ioContext().stopped())
            exited = true;
        try {
            for (int i = 0; i < 2000; ++i) {
                if (!control->ioContext().poll_one())
                    break;
                progress = true;
            }
        }
        catch (const std::exception &e) {
            exited = true;
            c.fail(std::string("an exception escaped the control thread (the "
                               "control interface would be gone): ") +
                   e.what());
        }
    }
    for (std::size_t i = 0; i < brokers.size(); ++i)
        progress |= brokers[i]->lis.service();
    for (std::size_t i = 0; i < listeners.size(); ++i)
        progress |= listeners[i]->service();
    for (std::size_t i = 0; i < clients.size(); ++i)
        progress |= clients[i]->service();
    for (std::size_t i = 0; i < others.size(); ++i)
        progress |= others[i]->service();
    return progress;
}

void World::settle(int idle)
{
    int    n     = 0;
    double start = pbt::realNow();
    while (n < idle) {
        if (round())
            n = 0;
        else {
            ++n;
            if (n > 1)
                usleep(n == 2 ? 10 : 60);
        }
        if (pbt::realNow() - start > 10)
            return;
    }
}

bool World::until(const std::function<bool()> &pred, double realSeconds)
{
    double start = pbt::realNow();
    int    idle  = 0;
    while (!pred()) {
        if (round())
            idle = 0;
        else {
            ++idle;
            if (idle > 2)
                usleep(idle < 20 ? 50 : 500);
        }
        if (pbt::realNow() - start > realSeconds)
            return pred();
    }
    return true;
}

void World::advance(int64_t ms, int64_t step)
{
    if (step <= 0)
        step = ms;
    while (ms > 0) {
        int64_t d = std::min(ms, step);
        vclock::addMs(d);
        ms -= d;
        settle();
    }
}

// --------------------------------------------------------------------- control
std::string World::ctl(const std::string &line, bool mustEnd)
{
    ctlOk  = false;
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a = {};
    a.sun_family  = AF_UNIX;
    strncpy(a.sun_path, sock.c_str(), sizeof(a.sun_path) - 1);
    if (::connect(fd, (sockaddr *)&a, sizeof a)) {
        ::close(fd);
        c.fail("control socket refused the connection");
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    std::string out;
    std::string msg  = line + "\n";
    std::size_t sent = 0;
    bool        end  = false;
    auto        io   = [&] {
        if (sent < msg.size()) {
            ssize_t n = ::send(
                fd, msg.data() + sent, msg.size() - sent, MSG_NOSIGNAL);
            if (n > 0)
                sent += n;
            else if (errno != EAGAIN)
                sent = msg.size();
        }
        char    b[65536];
        ssize_t n;
        while ((n = ::recv(fd, b, sizeof b, 0)) > 0)
            out.append(b, n);
        if (n == 0 || (n < 0 && errno != EAGAIN))
            end = true;
        return end;
    };
    until(io, mustEnd ? 6.0 : 0.05);
    ::close(fd);
    ctlOk = end;
    // let the effects posted to the server's loop happen
    settle(2);
    note("ctl ", pbt::show(line, 200), " -> ", pbt::show(out, 160), end ? "" : " (not ended)");
    if (mustEnd && !end)
        c.fail("no complete reply to control command " + pbt::show(line, 200));
    return out;
}

int World::freePort()
{
    static unsigned counter = 0;
    if (!counter)
        counter = (unsigned)getpid() * 7919u;
    for (int i = 0; i < 2000; ++i) {
        counter += 37;
        int port = 10000 + (int)(counter % 22000);
        int p;
        int fd = makeListen("0.0.0.0", port, true, &p);
        if (fd >= 0) {
            ::close(fd);
            return port;
        }
    }
    return 0;
}

void World::setupTls()
{
    ctl("TLS INGRESS CERT_CHAIN_FILE " + tlsCertFile());
    ctl("TLS INGRESS KEY_FILE " + tlsKeyFile());
}

int World::listen(bool secure)
{
    for (int i = 0; i < 20; ++i) {
        int port = freePort();
        ctl(std::string("LISTEN START") + (secure ? "_SECURE " : " ") +
            std::to_string(port));
        // check that it does listen
        int         fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a  = {};
        a.sin_family   = AF_INET;
        a.sin_port     = htons(port);
        inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
        // a second bind must fail when it listens
        int r = bind(fd, (sockaddr *)&a, sizeof a);
        ::close(fd);
        if (r != 0)
            return port;
    }
    c.fail("LISTEN START did not open a port");
}

void World::run(pbt::Ctx                            &ctx,
                const WorldOpts                     &opts,
                const std::function<void(World &)> &body)
{
    static int n = 0;
    const char *base = getenv("PBT_TMP");
    std::string dir  = std::string(base ? base : "/tmp") + "/w" +
                      std::to_string(getpid()) + "_" + std::to_string(n++);
    mkdir(dir.c_str(), 0755);
    vclock::enable();
    setupLog(opts.logLevel);

    std::exception_ptr  error;
    std::vector<std::string> args = {"amqpprox",
                                     "--controlSocket",
                                     dir + "/c",
                                     "--logDirectory",
                                     dir + "/logs"};
    for (auto &a : opts.args)
        args.push_back(a);
    std::vector<char *> argv;
    for (auto &a : args)
        argv.push_back(&a[0]);
    argv.push_back(nullptr);

    sysnet::clear();
    g_logHook = nullptr;
    World w(ctx);
    w.dir  = dir;
    w.sock = dir + "/c";
    g_control = nullptr;
    World *wp = &w;
    DNSResolver::setOverrideFunction(
        [wp](std::vector<boost::asio::ip::tcp::endpoint> *out,
             const std::string                           &host,
             const std::string                           &service) {
            wp->lookups.emplace_back(host, service);
            boost::system::error_code ec;
            auto ip = boost::asio::ip::address::from_string(host, ec);
            int  port = atoi(service.c_str());
            if (!ec) {
                out->push_back(boost::asio::ip::tcp::endpoint(ip, port));
                return boost::system::error_code();
            }
            auto it = wp->dns.find(host);
            if (it == wp->dns.end())
                return boost::system::error_code(
                    boost::asio::error::host_not_found);
            for (auto &e : it->second)
                out->push_back(boost::asio::ip::tcp::endpoint(
                    boost::asio::ip::address::from_string(e.first),
                    e.second ? e.second : port));
            return boost::system::error_code();
        });
    g_body = [&](Server *s) {
        w.server  = s;
        w.control = g_control;
        try {
            w.settle(2);
            body(w);
            w.settle();
        }
        catch (...) {
            error = std::current_exception();
        }
        // end of the history: peers go away before the proxy does
        w.clients.clear();
        w.others.clear();
    };
    amqpprox_real_main((int)args.size(), argv.data());
    g_body = nullptr;
    DNSResolver::setOverrideFunction(DNSResolver::OverrideFunction());
    std::string cmd = "rm -rf -- '" + dir + "'";
    unlink((dir + "/c").c_str());
    rmdir((dir + "/logs").c_str());
    rmdir(dir.c_str());
    if (error)
        std::rethrow_exception(error);
}

// ------------------------------------------------------------------------- TLS
static std::string g_certDir;
static void        makeCert()
{
    if (!g_certDir.empty())
        return;
    const char *base = getenv("PBT_TMP");
    g_certDir = std::string(base ? base : "/tmp") + "/cert" +
                std::to_string(getpid());
    mkdir(g_certDir.c_str(), 0755);
    EVP_PKEY *key = EVP_EC_gen("P-256");
    X509     *x   = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    ASN1_TIME_set(X509_getm_notBefore(x), 1700000000);
    ASN1_TIME_set(X509_getm_notAfter(x), 2100000000);
    X509_set_version(x, 2);
    X509_set_pubkey(x, key);
    X509_NAME *nm = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(
        nm, "CN", MBSTRING_ASC, (const unsigned char *)"localhost", -1, -1, 0);
    X509_set_issuer_name(x, nm);
    X509_sign(x, key, EVP_sha256());
    FILE *f = fopen((g_certDir + "/cert.pem").c_str(), "w");
    PEM_write_X509(f, x);
    fclose(f);
    f = fopen((g_certDir + "/key.pem").c_str(), "w");
    PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
    EVP_PKEY_free(key);
    X509_free(x);
}
std::string tlsCertFile()
{
    makeCert();
    return g_certDir + "/cert.pem";
}
std::string tlsKeyFile()
{
    makeCert();
    return g_certDir + "/key.pem";
}
SSL_CTX *tlsServerCtx()
{
    static SSL_CTX *ctx = nullptr;
    if (!ctx) {
        makeCert();
        ctx = SSL_CTX_new(TLS_server_method());
        SSL_CTX_use_certificate_chain_file(ctx, tlsCertFile().c_str());
        SSL_CTX_use_PrivateKey_file(ctx, tlsKeyFile().c_str(), SSL_FILETYPE_PEM);
        SSL_CTX_set_mode(ctx,
                         SSL_MODE_ENABLE_PARTIAL_WRITE |
                             SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    }
    return ctx;
}
SSL_CTX *tlsClientCtx()
{
    static SSL_CTX *ctx = nullptr;
    if (!ctx) {
        ctx = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr);
        SSL_CTX_set_mode(ctx,
                         SSL_MODE_ENABLE_PARTIAL_WRITE |
                             SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    }
    return ctx;
}
