// The whole proxy (its own main()) inside the test process, single-threaded,
// under a virtual clock.  See DESIGN.md.
#ifndef WORLD_H
#define WORLD_H
#include "pbt.h"
#include "refamqp.h"
#include "sysdns.h"
#include "vclock.h"

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <openssl/ssl.h>

namespace Bloomberg {
namespace amqpprox {
class Server;
class Control;
}
}

using ref::Bytes;

// ------------------------------------------------------------------- sockets
// How a logical send is cut into separately delivered pieces.
using Cutter = std::function<std::vector<Bytes>(const Bytes &)>;
Cutter wholeCutter();
Cutter byteCutter();
// Generates a segmentation style from the choice source.
Cutter genCutter(pbt::Ctx &c);

class Peer {
  public:
    int         fd = -1;
    Bytes       rx;             // received and not yet taken
    std::size_t rxTotal = 0;
    bool        eof     = false;  // orderly end from the other side
    int         err     = 0;      // ECONNRESET and the like
    bool        connecting = false;
    bool        stalled = false;  // do not read
    std::size_t readLimit = 0;    // bytes per round (0: unlimited)
    std::deque<Bytes> segs;       // one per round
    std::size_t txTotal = 0;
    SSL        *ssl     = nullptr;
    bool        sslDone = false, sslFailed = false;
    bool        closeWhenSent = false;
    Bytes       rawFirst;  // first bytes peeked below TLS
    Bytes       plainPrefix;  // PROXY line stripped before TLS

    Peer() {}
    Peer(const Peer &)            = delete;
    Peer &operator=(const Peer &) = delete;
    virtual ~Peer();

    bool open() const { return fd >= 0; }
    bool ended() const { return eof || err; }
    void send(const Bytes &b) { if (!b.empty()) segs.push_back(b); }
    void send(const Bytes &b, const Cutter &cut)
    {
        for (auto &s : cut(b))
            send(s);
    }
    bool allSent() const { return segs.empty(); }
    void close();
    void reset();  // RST
    void shutdownWrite();
    int  localPort() const;
    int  remotePort() const;
    std::string localIp() const;
    // returns true when something happened
    bool service();
    virtual void onAccepted() {}
    SSL_CTX     *tlsAfterPrefix = nullptr;  // start TLS when the plain part is over
    bool         wantLine = false;          // the plain part is one line
    virtual void onData() {}
    virtual void onEnd() {}
    void startTlsServer(SSL_CTX *ctx);
    void startTlsClient(SSL_CTX *ctx);
};

class Listener {
  public:
    int         fd = -1;
    int         port = 0;
    std::string ip;
    bool        accepting = true;
    std::size_t accepted  = 0;
    std::function<std::shared_ptr<Peer>()> make;
    std::vector<std::shared_ptr<Peer>>     conns;  // all ever accepted
    ~Listener();
    bool service();
};

// -------------------------------------------------------------- AMQP endpoints
struct World;

struct LoginSpec {
    ref::StartOk so;
    ref::Tune    tok;
    std::string  vhost    = "/";
    bool         pipeline = true;    // TuneOk and Open together
    bool         legacy   = false;   // AMQP 1 1 0 9 header
    Cutter       cut;                // null: whole
};

class Client : public Peer {
  public:
    LoginSpec               spec;
    bool                    automatic = true;
    Bytes                   buf;      // unparsed handshake bytes
    std::vector<ref::Frame> frames;   // handshake frames received
    bool                    gotStart = false, gotTune = false, isOpen = false;
    bool                    gotClose = false;
    bool                    bad      = false;   // malformed bytes from the proxy
    std::string             order;              // methods seen, in order
    ref::Start              start;
    ref::Tune               tune;
    ref::Close              close_;
    Bytes                   openOkFrame;
    Bytes                   data;   // raw bytes after OpenOk
    bool                    sentTuneOk = false;
    int                     srcPort = 0;
    std::string             srcIp;
    void                    begin();  // send the protocol header
    void                    onData() override;
};

enum Step { S_HEADER, S_STARTOK, S_TUNEOK, S_OPEN, S_NEVER };

class BrokerConn : public Peer {
  public:
    World                  *w = nullptr;
    int                     backend = -1;  // index of the Broker
    Bytes                   buf;
    Bytes                   wire;    // everything received, in order
    std::vector<ref::Frame> frames;
    Bytes                   header;
    bool                    gotHeader = false, gotStartOk = false,
         gotTuneOk = false, gotOpen = false, isOpen = false, bad = false;
    std::string  order;
    ref::StartOk so;
    ref::Tune    tok;
    ref::Open    op;
    Bytes        data;  // raw bytes after Open has been answered
    Bytes        proxyLine;
    bool         gotClose = false, gotCloseOk = false;
    bool         peekProxy = false;
    std::size_t  serial    = 0;
    void         onAccepted() override;
    void         onData() override;
    void         feed();
};

// A fake broker: one listening socket and its behaviour for new connections.
class Broker {
  public:
    World      *w     = nullptr;
    int         index = 0;
    std::string name;
    Listener    lis;
    bool        refusing = false;     // port bound, nothing listening
    bool        automatic = true;     // play the server side of the handshake
    bool        expectProxy = false;
    bool        tls         = false;
    SSL_CTX    *tlsCtx      = nullptr;  // instead of the usual one
    // answer step S with this instead of the normal reply
    Step        closeAt = S_NEVER;
    ref::Close  closeWith;
    Step        dropAt = S_NEVER;     // close the socket at that step
    Step        holdAt = S_NEVER;     // say nothing at that step
    Step        rawAt  = S_NEVER;     // send rawBytes at that step
    Bytes       rawBytes;
    Bytes       extraAfterOpenOk;     // glued to OpenOk
    ref::Start  start;
    ref::Tune   tune;
    Cutter      cut;                  // segmentation of the broker's handshake bytes
    Bytes       openOk = ref::connFrame(ref::OPENOK, Bytes(1, '\0'));
    std::vector<std::shared_ptr<BrokerConn>> conns() const;
    std::size_t count() const { return lis.accepted; }
    std::shared_ptr<BrokerConn> last() const;
    void setRefusing(bool r);  // same port
};

// ------------------------------------------------------------- HTTP auth fake
class HttpConn;
struct HttpReq {
    HttpConn   *conn = nullptr;
    std::string method, target, body;
    std::map<std::string, std::string> headers;
};
class HttpConn : public Peer {
  public:
    World *w = nullptr;
    Bytes  buf;
    bool   done = false;
    void   onData() override;
};
struct HttpAction {
    Bytes bytes;          // sent back
    bool  closeAfter = true;
    bool  hold       = false;  // never answer
    bool  dropNow    = false;
    Cutter cut;
};

// ------------------------------------------------------------------------ logs
struct LogLine {
    int         severity = -1;  // 0 fatal .. 5 trace
    std::string text, vhost;
    uint64_t    conn     = 0;
    bool        hasVhost = false, hasConn = false;
};
extern std::function<void(const LogLine &)> g_logHook;  // reset by World::run

// ----------------------------------------------------------------------- world
struct WorldOpts {
    std::vector<std::string> args;
    int                      logLevel = 3;
};

struct World {
    pbt::Ctx                    &c;
    Bloomberg::amqpprox::Server *server  = nullptr;
    Bloomberg::amqpprox::Control *control = nullptr;
    std::string                  dir, sock;
    bool                         exited = false;
    bool                         freezeServer = false;  // only the control thread makes progress

    std::vector<std::unique_ptr<Broker>>  brokers;
    std::vector<std::shared_ptr<Client>>  clients;
    std::vector<std::shared_ptr<Peer>>    others;
    std::vector<std::unique_ptr<Listener>> listeners;

    // name resolution seen and served (host -> addresses, or absent = error)
    std::map<std::string, std::vector<std::pair<std::string, int>>> dns;
    std::vector<std::pair<std::string, std::string>>                lookups;

    // auth service
    std::function<HttpAction(const HttpReq &)> http;
    std::vector<HttpReq>                       httpReqs;
    Listener                                  *httpLis = nullptr;
    int startHttp();

    explicit World(pbt::Ctx &ctx)
    : c(ctx)
    {
    }

    // --- running ---
    bool round();     // one round; true when anything happened
    void settle(int idle = 4);
    bool until(const std::function<bool()> &pred, double realSeconds = 6.0);
    void advance(int64_t ms, int64_t step = 0);  // virtual time

    // --- control ---
    std::string ctl(const std::string &line, bool mustEnd = true);
    bool        ctlOk = true;  // last command's reply was properly ended
    void        setupTls();  // certificate for the secure ports
    int         listen(bool secure = false);  // LISTEN START on a free port
    static int  freePort();

    // --- endpoints ---
    Broker *addBroker(const std::string &ip = "127.0.0.1", bool refusing = false);
    // a broker plus a BACKEND entry for it
    Broker *addBackend(const std::string &name,
                       const std::string &dc    = "dc1",
                       const std::string &flags = "",
                       const std::string &ip    = "127.0.0.1",
                       bool               refusing = false);
    std::shared_ptr<Client> connect(int                port,
                                    const LoginSpec   &spec,
                                    const std::string &srcIp = "",
                                    bool               tls   = false);
    // connect and run the login to its end (open, close or eof)
    std::shared_ptr<Client> login(int port, const LoginSpec &spec,
                                  const std::string &srcIp = "", bool tls = false);
    // the broker connection of a client (by the port in amqpprox_client), or null
    std::shared_ptr<BrokerConn> brokerOf(const Client &cl);
    std::vector<std::shared_ptr<BrokerConn>> allBrokerConns();
    std::size_t brokerConnCount();

    template <class... A>
    void note(const A &...a)
    {
        c.note("[", vclock::nowMs(), "ms] ", a...);
    }

    static void run(pbt::Ctx                            &ctx,
                    const WorldOpts                     &opts,
                    const std::function<void(World &)> &body);

    std::size_t serial = 0;
};

// largest record and newest version the harness's own TLS ends use from now on
void        tlsKnobs(unsigned fragment = 16384, bool only12 = false);
SSL_CTX    *tlsServerCtx();
SSL_CTX    *tlsClientCtx();
std::string tlsCertFile();
std::string tlsKeyFile();
std::string outcomeOf(const Client &cl);

#endif
