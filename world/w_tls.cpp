#include "scen.h"
#include <algorithm>
#include <cstdio>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

// ------------------------------------------------------------------------- PKI
namespace {
struct Id {
    X509       *cert = nullptr;
    EVP_PKEY   *key  = nullptr;
    std::string certFile, keyFile;
    int         ca      = 0;  // 1: A, 2: B, 0: nobody
    bool        expired = false;
    bool        good(const std::set<int> &cas) const { return ca && !expired && cas.count(ca); }
};
struct Pki {
    std::string               dir;
    std::map<std::string, Id> ids;
    std::string               caFile[3], badFile;
};

X509 *makeX509(EVP_PKEY *key, const std::string &cn, bool ca, X509 *issuer, EVP_PKEY *issuerKey, bool expired, long serial)
{
    X509 *x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    ASN1_TIME_set(X509_getm_notBefore(x), 900000000);
    ASN1_TIME_set(X509_getm_notAfter(x), expired ? 1000000000 : 4000000000l);
    X509_set_version(x, 2);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *)cn.c_str(), -1, -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : X509_get_subject_name(x));
    if (ca) {
        X509V3_CTX v;
        X509V3_set_ctx_nodb(&v);
        X509V3_set_ctx(&v, x, x, nullptr, nullptr, 0);
        X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &v, NID_basic_constraints, "critical,CA:TRUE");
        X509_add_ext(x, e, -1);
        X509_EXTENSION_free(e);
    }
    X509_sign(x, issuerKey ? issuerKey : key, EVP_sha256());
    return x;
}

void writePem(const std::string &file, const std::vector<X509 *> &certs, EVP_PKEY *key = nullptr)
{
    FILE *f = fopen(file.c_str(), "w");
    for (auto *x : certs)
        PEM_write_X509(f, x);
    if (key)
        PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
}

Pki &pki()
{
    static Pki p;
    if (!p.dir.empty())
        return p;
    const char *base = getenv("PBT_TMP");
    p.dir            = std::string(base ? base : "/tmp") + "/pki" + std::to_string(getpid());
    mkdir(p.dir.c_str(), 0755);
    EVP_PKEY *ck[3] = {nullptr, EVP_EC_gen("P-256"), EVP_EC_gen("P-256")}, *mk = EVP_EC_gen("P-256");
    X509     *ca[3] = {nullptr, makeX509(ck[1], "ca A", true, nullptr, nullptr, false, 1), makeX509(ck[2], "ca B", true, nullptr, nullptr, false, 2)};
    X509     *mid   = makeX509(mk, "intermediate", true, ca[1], ck[1], false, 3);
    for (int i = 1; i <= 2; ++i) {
        p.caFile[i] = p.dir + "/ca" + std::to_string(i) + ".pem";
        writePem(p.caFile[i], {ca[i]});
    }
    p.badFile = p.dir + "/bad.pem";
    if (FILE *f = fopen(p.badFile.c_str(), "w")) {
        fputs("-----BEGIN CERTIFICATE-----\nbm90IG9uZQ==\n-----END CERTIFICATE-----\n", f);
        fclose(f);
    }
    long serial = 10;
    auto addBy  = [&](const std::string &n, int c, X509 *issuer, EVP_PKEY *issuerKey, const std::vector<X509 *> &more, bool expired = false) {
        Id id;
        id.key      = EVP_EC_gen("P-256");
        id.ca       = c;
        id.expired  = expired;
        id.cert     = makeX509(id.key, n, false, issuer, issuerKey, expired, serial++);
        id.certFile = p.dir + "/" + n + ".pem";
        id.keyFile  = p.dir + "/" + n + ".key";
        std::vector<X509 *> chain{id.cert};
        chain.insert(chain.end(), more.begin(), more.end());
        writePem(id.certFile, chain);
        writePem(id.keyFile, {}, id.key);
        p.ids[n] = id;
    };
    addBy("a", 1, ca[1], ck[1], {});
    addBy("b", 2, ca[2], ck[2], {});
    addBy("m", 1, mid, mk, {mid});
    addBy("self", 0, nullptr, nullptr, {});
    addBy("old", 1, ca[1], ck[1], {}, true);
    addBy("a2", 1, ca[1], ck[1], {});
    // of a CA that only calls itself A, which is sent along
    EVP_PKEY *fk = EVP_EC_gen("P-256");
    X509     *fa = makeX509(fk, "ca A", true, nullptr, nullptr, false, 1);
    addBy("forged", 0, fa, fk, {fa});
    // of an unknown CA, by an intermediate; all sent along
    EVP_PKEY *uk = EVP_EC_gen("P-256"), *umk = EVP_EC_gen("P-256");
    X509     *ua = makeX509(uk, "ca U", true, nullptr, nullptr, false, 1), *um = makeX509(umk, "intermediate U", true, ua, uk, false, 2);
    addBy("unknown", 0, um, umk, {um, ua});
    // by an intermediate that has expired
    EVP_PKEY *omk = EVP_EC_gen("P-256");
    X509     *om  = makeX509(omk, "old intermediate", true, ca[1], ck[1], true, 4);
    addBy("oldmid", 0, om, omk, {om});
    // by an intermediate that is not sent along
    addBy("gap", 0, mid, mk, {});
    // by a certificate that is no CA
    addBy("leafmade", 0, p.ids["a"].cert, p.ids["a"].key, {p.ids["a"].cert});
    return p;
}

int always(int, X509_STORE_CTX *) { return 1; }

const std::vector<std::string> CIPHERS = {"ECDHE-ECDSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES256-GCM-SHA384", "ECDHE-ECDSA-CHACHA20-POLY1305"};

std::string joined(const std::set<std::string> &l, const char *sep = ":")
{
    std::string s;
    for (auto &x : l)
        s += (s.empty() ? "" : sep) + x;
    return s;
}

SSL_CTX *peerCtx(bool serverSide, const std::string &id, const std::set<std::string> &ciphers)
{
    static std::map<std::string, SSL_CTX *> made;
    SSL_CTX                               *&ctx = made[(serverSide ? "s/" : "c/") + id + "/" + joined(ciphers)];
    if (ctx)
        return ctx;
    ctx = SSL_CTX_new(serverSide ? TLS_server_method() : TLS_client_method());
    SSL_CTX_set_mode(ctx, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF);
    SSL_CTX_set_options(ctx, SSL_OP_NO_TICKET);
    SSL_CTX_set_cipher_list(ctx, joined(ciphers).c_str());
    SSL_CTX_load_verify_locations(ctx, pki().caFile[1].c_str(), nullptr);
    SSL_CTX_load_verify_locations(ctx, pki().caFile[2].c_str(), nullptr);
    SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, always);  // asked for and recorded, never refused
    if (!id.empty()) {
        SSL_CTX_use_certificate_chain_file(ctx, pki().ids[id].certFile.c_str());
        SSL_CTX_use_PrivateKey_file(ctx, pki().ids[id].keyFile.c_str(), SSL_FILETYPE_PEM);
    }
    ERR_clear_error();
    return ctx;
}

// What the TLS commands have set for one side
struct Side {
    const char           *name;
    bool                  peer = false, failNone = false;
    std::set<int>         cas;
    std::string           id;
    std::set<std::string> ciphers{CIPHERS.begin(), CIPHERS.end()};
    bool                  cipherSet = false;
};
}

PBT_TARGET(verify_any,
           "up to 16 steps: TLS commands for either side (verification modes, CA files, certificates and keys, cipher lists; in any letter "
           "case, some of them invalid), clients with no, trusted, untrusted, self-made, chained and expired certificates, brokers likewise; "
           "who gets through, what the proxy shows of itself and which ciphers are used compared with a model. Non-trivial: a "
           "peer had to be refused and another one let in.")
{
    World::run(c, {}, [&](World &w) {
        auto &k = pki();
        Side  in{"INGRESS"}, eg{"EGRESS"};
        tlsKnobs(16384, true);
        auto word = [&](std::string s) {
            switch (c.weighted({3, 1, 1})) {
            case 1: return lower(s);
            case 2:
                for (auto &ch : s)
                    if (c.flip())
                        ch = (char)tolower(ch);
                return s;
            default: return s;
            }
        };
        auto tls = [&](Side &s, const std::string &what, const std::string &rest) {
            return w.ctl("TLS " + word(s.name) + " " + word(what) + " " + rest);
        };
        auto identity = [&](Side &s, const std::string &id) {
            std::string r = tls(s, "CERT_CHAIN_FILE", k.ids[id].certFile);
            r += tls(s, "KEY_FILE", k.ids[id].keyFile);
            c.check(!contains(r, "Error"), "setting certificate ", id, " failed: ", pbt::show(r));
            s.id = id;
        };
        auto *plainB = w.addBackend("plain", "dc1", "");
        auto *tlsB   = w.addBackend("secure", "dc1", "TLS");
        w.ctl("MAP BACKEND vp plain");
        w.ctl("MAP BACKEND vt secure");
        bool early = c.flip();
        int  plain = w.listen(), secure = 0;
        if (early)
            secure = w.listen(true);  // settings come later
        identity(in, c.oneof<std::string>({"a", "b", "m"}));
        if (!early)
            secure = w.listen(true);
        tlsB->tlsCtx = peerCtx(true, "a", eg.ciphers);
        bool refused = false, let = false;

        std::vector<Sess> open;
        auto someCiphers = [&] {
            std::set<std::string> l;
            if (c.chance(1, 2))
                return std::set<std::string>{CIPHERS.begin(), CIPHERS.end()};
            for (auto &x : CIPHERS)
                if (c.flip())
                    l.insert(x);
            if (l.empty())
                l.insert(c.pick(CIPHERS));
            return l;
        };
        auto command = [&](Side &s) {
            switch (c.weighted({6, 4, 3, 3, 3})) {
            case 0: {
                std::string l;
                bool        peer = false, fn = false, bad = false, more = false;
                for (std::size_t i = 0, n = c.below(4); i < n; ++i) {
                    std::string m = c.oneof<std::string>({"PEER", "FAIL_IF_NO_PEER_CERT", "PEER", "NONE", "CLIENT_ONCE", "PEERS", "1"});
                    peer |= m == "PEER";
                    fn |= m == "FAIL_IF_NO_PEER_CERT";
                    more |= fn || m == "CLIENT_ONCE";
                    bad |= m == "PEERS" || m == "1";
                    l += " " + word(m);
                }
                if (more && !peer) {  // means nothing by itself
                    l += " " + word("PEER");
                    peer = true;
                }
                std::string r = tls(s, "VERIFY_MODE", l);
                if (bad) {
                    c.check(!r.empty(), "an unknown mode was taken without a word");
                    break;
                }
                c.check(!contains(r, "Unknown") && !contains(r, "Error"), "VERIFY_MODE", l, " was answered with ", pbt::show(r));
                s.peer     = peer;
                s.failNone = fn;
                break;
            }
            case 1: {
                int ca = (int)c.below(4);
                if (ca == 1 || ca == 2) {
                    std::string r = tls(s, "CA_CERT_FILE", k.caFile[ca]);
                    c.check(!contains(r, "Error"), "CA_CERT_FILE was answered with ", pbt::show(r));
                    s.cas.insert(ca);
                }
                else {
                    std::string r = tls(s, "CA_CERT_FILE", ca == 0 ? k.badFile : k.dir + "/none.pem");
                    c.check(!r.empty(), "an unusable CA file was taken without a word");
                }
                break;
            }
            case 2: identity(s, c.oneof<std::string>({"a", "b", "m", "a2"})); break;
            case 3: {  // files that cannot be used change nothing
                std::string what = c.oneof<std::string>({"CERT_CHAIN_FILE", "KEY_FILE", "RSA_KEY_FILE"});
                std::string f    = c.oneof<std::string>({k.badFile, k.dir + "/none.pem", k.dir});
                if (what == "KEY_FILE" && !s.id.empty() && c.flip())
                    f = k.ids[s.id == "b" ? "a" : "b"].keyFile;  // not of the certificate
                std::string r = tls(s, what, f);
                c.check(!r.empty(), "an unusable ", what, " was taken without a word");
                break;
            }
            default: {
                if (c.chance(1, 3)) {
                    std::string r = tls(s, "CIPHERS", "SET " + c.oneof<std::string>({"GARBAGE", "", "NULL-NOTHING:X", "-"}));
                    c.check(!r.empty(), "an unusable cipher list was taken without a word");
                    break;
                }
                auto        l = someCiphers();
                std::string t = joined(l);
                if (c.chance(1, 4))
                    t = "NO-SUCH-CIPHER:" + t;  // skipped
                tls(s, "CIPHERS", "SET " + t);
                s.ciphers   = l;
                s.cipherSet = true;
                break;
            }
            }
            if (c.chance(1, 4)) {
                std::set<std::string> now;
                for (auto &l : lines(w.ctl(std::string("TLS ") + s.name + " CIPHERS PRINT")))
                    if (l.rfind("TLS_", 0) && l != "Ciphers:" && (s.cipherSet || std::count(CIPHERS.begin(), CIPHERS.end(), l)))
                        now.insert(l);
                c.check(now == s.ciphers, s.name, " ciphers printed: ", joined(now, " "), " instead of ", joined(s.ciphers, " "));
            }
        };
        auto common = [&](const std::set<std::string> &a, const std::set<std::string> &b) {
            for (auto &x : a)
                if (b.count(x))
                    return true;
            return false;
        };
        auto checkShown = [&](SSL *ssl, const std::string &id, const Side &s, const std::set<std::string> &mine, const char *who) {
            X509 *x = SSL_get1_peer_certificate(ssl);
            if (id.empty())
                c.check(!x, who, " was shown a certificate though none is set");
            else {
                c.check(x && X509_cmp(x, k.ids[id].cert) == 0, who, " was not shown the certificate that is set (", id, ")");
                c.check(SSL_get_verify_result(ssl) == X509_V_OK, who, " cannot verify the certificate shown (", id, "): ",
                        X509_verify_cert_error_string(SSL_get_verify_result(ssl)));
            }
            if (x)
                X509_free(x);
            std::string ci = SSL_get_cipher_name(ssl);
            c.check(s.ciphers.count(ci) && mine.count(ci), who, " ended up with cipher ", ci, " which is not allowed");
        };
        auto client = [&] {
            std::string id = c.oneof<std::string>({"", "a", "b", "m", "self", "old", "a", "b", "m", "forged", "unknown", "oldmid", "gap", "leafmade"});
            auto        l  = someCiphers();
            bool        ok = common(l, in.ciphers);
            if (in.peer)
                ok = ok && (id.empty() ? !in.failNone : k.ids[id].good(in.cas));
            std::size_t before = plainB->count();
            w.note("client with certificate '", id, "' and ", joined(l), ok ? ", to be let in" : ", to be refused");
            auto cl = w.connect(secure, plainLogin("vp"));
            cl->startTlsClient(peerCtx(false, id, l));
            cl->begin();
            w.until([&] { return cl->isOpen || cl->ended() || cl->bad; });
            if (!ok) {
                w.settle(2);
                c.check(!cl->gotStart && !cl->isOpen, "a client with certificate '", id, "' was let in");
                c.check(cl->ended(), "a client with certificate '", id, "' is left waiting");
                c.check(plainB->count() == before, "a broker was contacted for a client that cannot be let in");
                cl->close();
                refused = true;
                c.label("client refused");
            }
            else {
                c.check(cl->isOpen, "a client with certificate '", id, "' was not let in: ", outcomeOf(*cl));
                checkShown(cl->ssl, in.id, in, l, "a client");
                if (open.size() < 2) {
                    Sess s;
                    s.cl = cl;
                    s.br = w.brokerOf(*cl);
                    c.check((bool)s.br, "no broker connection");
                    s.vhost = "vp";
                    open.push_back(s);
                }
                else
                    cl->close();
                let = true;
                c.label("client let in");
            }
        };
        auto broker = [&] {
            std::string id = c.oneof<std::string>({"a", "b", "m", "self", "old", "a", "b", "m", "forged", "unknown", "oldmid", "gap", "leafmade"});
            auto        l  = someCiphers();
            bool        ok = common(l, eg.ciphers) && (!eg.peer || k.ids[id].good(eg.cas));
            tlsB->tlsCtx   = peerCtx(true, id, l);
            std::size_t before = tlsB->count();
            w.note("broker with certificate '", id, "' and ", joined(l), ok ? ", to be trusted" : ", not to be trusted");
            auto cl = w.connect(plain, plainLogin("vt"));
            cl->begin();
            w.until([&] { return cl->isOpen || cl->ended() || cl->bad; });
            c.check(tlsB->count() == before + 1, "the broker was not contacted");
            auto br = tlsB->last();
            if (!ok) {
                w.settle(2);
                c.check(!cl->isOpen, "a login completed over a broker with certificate '", id, "'");
                c.check(br->wire.empty() && !br->gotHeader, "a broker with certificate '", id, "' was sent AMQP");
                c.check(cl->ended(), "the client is left waiting");
                refused = true;
                c.label("broker refused");
            }
            else {
                c.check(cl->isOpen, "a login over a broker with certificate '", id, "' did not complete: ", outcomeOf(*cl));
                checkShown(br->ssl, eg.id, eg, l, "a broker");
                let = true;
                c.label("broker trusted");
            }
            cl->close();
            w.settle(2);
        };
        for (Side *s : {&in, &eg})
            if (c.flip()) {  // a usual configuration to begin with
                s->failNone = c.flip();
                tls(*s, "VERIFY_MODE", s->failNone ? "PEER FAIL_IF_NO_PEER_CERT" : "PEER");
                s->peer = true;
                int ca  = 1 + (int)c.below(2);
                tls(*s, "CA_CERT_FILE", k.caFile[ca]);
                s->cas.insert(ca);
            }
        for (std::size_t i = 0, n = 2 + c.below(15); i < n; ++i) {
            switch (c.weighted({5, 3, 3})) {
            case 0: command(c.flip() ? eg : in); break;
            case 1: client(); break;
            default: broker(); break;
            }
        }
        for (auto &s : open)
            probe(w, s, "at the end");
        if (refused && let)
            c.nontrivial();
    });
}
