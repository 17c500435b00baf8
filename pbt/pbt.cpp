#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

// ---------------------------------------------------------------- utilities
double realNow()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h ^= ch;
        h *= 1099511628211ull;
    }
    return h;
}

std::string hex(const std::string &s, std::size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string        o;
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        o += d[(unsigned char)s[i] >> 4];
        o += d[(unsigned char)s[i] & 15];
    }
    if (s.size() > max)
        o += "...(" + std::to_string(s.size()) + "B)";
    return o;
}

std::string show(const std::string &s, std::size_t max)
{
    std::string o = "\"";
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char ch = s[i];
        if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\')
            o += (char)ch;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        }
    }
    o += "\"";
    if (s.size() > max)
        o += "...(" + std::to_string(s.size()) + "B)";
    return o;
}

// ------------------------------------------------------------- shared memory
constexpr std::size_t SHM_CHOICES = 400000;
struct Recorder {
    std::atomic<uint64_t> caseIndex;
    std::atomic<uint64_t> startedMs;
    std::atomic<uint64_t> count;
    uint64_t              v[SHM_CHOICES];
};
static Recorder *newRecorder()
{
    void *p = mmap(nullptr,
                   sizeof(Recorder),
                   PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                   -1,
                   0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(2);
    }
    return static_cast<Recorder *>(p);
}

// -------------------------------------------------------------------- choices
uint64_t Ctx::below(uint64_t n)
{
    if (n == 0)
        n = 1;
    if (rec.size() >= SHM_CHOICES)
        throw Discard{};
    uint64_t v;
    if (replay) {
        v = rec.size() < replay->size() ? (*replay)[rec.size()] : 0;
        if (v >= n)
            v = n - 1;
    }
    else {
        // xorshift128+
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        v    = (s[1] + b);
        v    = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    rec.push_back(v);
    if (shm) {
        shm->v[rec.size() - 1] = v;
        shm->count             = rec.size();
    }
    return v;
}

unsigned Ctx::weighted(std::initializer_list<unsigned> w)
{
    uint64_t t = 0;
    for (auto x : w)
        t += x;
    uint64_t r = below(t);
    unsigned i = 0;
    for (auto x : w) {
        if (r < x)
            return i;
        r -= x;
        ++i;
    }
    return 0;
}

uint64_t Ctx::edgy(unsigned bits)
{
    uint64_t mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    switch (weighted({3, 2, 2, 2, 1})) {
    case 0:
        return below(10) & mask;
    case 1: {
        unsigned b = below(bits);
        return ((1ull << b) + below(3) - 1) & mask;
    }
    case 2:
        return (mask - below(4)) & mask;
    case 3:
        return below(300) & mask;
    default: {
        uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
        return ((hi << 32) | lo) & mask;
    }
    }
}

uint64_t Ctx::size(uint64_t lo, uint64_t hi)
{
    if (hi <= lo)
        return lo;
    uint64_t span = hi - lo;
    switch (weighted({4, 3, 2, 1})) {
    case 0:
        return lo + below(std::min<uint64_t>(span, 8) + 1);
    case 1:
        return lo + below(std::min<uint64_t>(span, 64) + 1);
    case 2:
        return lo + below(span + 1);
    default:
        return hi - below(std::min<uint64_t>(span, 4) + 1);
    }
}

std::string Ctx::bulk(std::size_t n)
{
    uint64_t    seed = below(1ull << 32);
    std::string o(n, 0);
    if (seed == 0) {
        for (std::size_t i = 0; i < n; ++i)
            o[i] = (char)('a' + i % 26);
        return o;
    }
    uint64_t x = seed;
    for (std::size_t i = 0; i < n; i += 8) {
        uint64_t v = splitmix(x);
        memcpy(&o[i], &v, std::min<std::size_t>(8, n - i));
    }
    return o;
}

std::string Ctx::bytes(std::size_t n)
{
    std::string o;
    for (std::size_t i = 0; i < n; ++i)
        o += (char)below(256);
    return o;
}

std::string Ctx::text(std::size_t n, const std::string &alphabet)
{
    std::string o;
    for (std::size_t i = 0; i < n; ++i)
        o += alphabet[below(alphabet.size())];
    return o;
}

void Ctx::flushTrace()
{
    std::string t = trace.str();
    trace.str("");
    fprintf(stdout, "%s", t.c_str());
    fflush(stdout);
}

// -------------------------------------------------------------------- registry
struct Target {
    std::string name;
    Fn          fn;
    std::string rule;
};
static std::vector<Target> &targets()
{
    static std::vector<Target> t;
    return t;
}
Reg::Reg(const char *name, Fn fn, const char *rule)
{
    targets().push_back({name, fn, rule});
}

// ---------------------------------------------------------------- running a case
enum Status { PASS = 0, FAIL = 1, DISCARD = 2, CRASH = 3, HANG = 4 };
static const char *statusName(int s)
{
    static const char *n[] = {"pass", "fail", "discard", "crash", "hang"};
    return n[s];
}

static int runCase(const Target &t, Ctx &c, std::string &msg)
{
    try {
        t.fn(c);
        return PASS;
    }
    catch (const Fail &f) {
        msg = f.msg;
        return FAIL;
    }
    catch (const Discard &) {
        return DISCARD;
    }
    catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAIL;
    }
}

static std::string readFile(const std::string &p, std::size_t max = 1 << 20)
{
    std::ifstream     f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    if (s.size() > max)
        s.resize(max);
    return s;
}

static std::string g_tmp;

struct Outcome {
    int                   status = PASS;
    std::string           msg;
    std::string           trace;
    std::vector<uint64_t> used;
};

// First informative lines of a sanitizer report / stderr.
static std::string crashSummary(const std::string &err, int wstatus)
{
    std::ostringstream os;
    if (WIFSIGNALED(wstatus))
        os << "killed by signal " << WTERMSIG(wstatus);
    else
        os << "exited with status " << WEXITSTATUS(wstatus);
    std::istringstream is(err);
    std::string        line;
    int                n = 0, frames = 0;
    while (std::getline(is, line) && n < 14) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
            line.find("runtime error") != std::string::npos ||
            line.find("SUMMARY:") != std::string::npos ||
            line.find("terminate called") != std::string::npos ||
            line.find("what():") != std::string::npos ||
            line.find("Assertion") != std::string::npos) {
            os << "\n    " << line.substr(0, 300);
            ++n;
        }
        else if (line.find("/repo/") != std::string::npos && frames < 6) {
            os << "\n    " << line.substr(0, 300);
            ++n;
            ++frames;
        }
    }
    return os.str();
}

static Outcome
forkCase(const Target &t, const std::vector<uint64_t> &choices, double limit)
{
    static Recorder *rec = newRecorder();
    rec->count           = 0;
    std::string errf = g_tmp + "/shrink.err", outf = g_tmp + "/shrink.out";
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);  // a worker does not outlive the search
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        Ctx c;
        c.replay        = &choices;
        c.shm           = rec;
        std::string msg;
        int         st = runCase(t, c, msg);
        {
            std::ofstream f(outf, std::ios::binary);
            f << st << "\n" << msg << "\n===TRACE\n" << c.trace.str();
        }
        _exit(40 + st);
    }
    double  start = realNow();
    Outcome o;
    int     ws;
    while (true) {
        pid_t r = waitpid(pid, &ws, WNOHANG);
        if (r == pid)
            break;
        if (realNow() - start > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &ws, 0);
            o.status = HANG;
            o.msg    = "case did not finish in " + std::to_string((int)limit) +
                    " s";
            o.used.assign(rec->v, rec->v + rec->count);
            return o;
        }
        usleep(500);
    }
    o.used.assign(rec->v, rec->v + rec->count);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) >= 40 && WEXITSTATUS(ws) <= 42) {
        o.status      = WEXITSTATUS(ws) - 40;
        std::string s = readFile(outf);
        auto        p = s.find('\n');
        auto        q = s.find("\n===TRACE\n");
        if (p != std::string::npos && q != std::string::npos && q >= p + 1) {
            o.msg   = s.substr(p + 1, q - p - 1);
            o.trace = s.substr(q + 10);
        }
        else if (q != std::string::npos)
            o.trace = s.substr(q + 10);
    }
    else {
        o.status = CRASH;
        o.msg    = crashSummary(readFile(errf), ws);
    }
    return o;
}

static bool bad(int s) { return s == FAIL || s == CRASH || s == HANG; }

static std::vector<uint64_t> shrink(const Target         &t,
                                    std::vector<uint64_t> cur,
                                    double                budget,
                                    double                caseLimit,
                                    int                  *steps)
{
    double end = realNow() + budget;
    auto   tryIt = [&](std::vector<uint64_t> cand) {
        while (!cand.empty() && cand.back() == 0)
            cand.pop_back();
        if (realNow() > end || cand == cur)
            return false;
        ++*steps;
        Outcome o = forkCase(t, cand, caseLimit);
        if (bad(o.status)) {
            // canonicalise to what was actually consumed
            std::vector<uint64_t> u = o.used;
            while (!u.empty() && u.back() == 0)
                u.pop_back();
            cur = (u.size() <= cand.size() && !u.empty()) ? u : cand;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && realNow() < end) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(cur.size() / 2, 1);
             len >= 1 && realNow() < end;
             len /= 2) {
            for (std::size_t i = 0; i + len <= cur.size() && realNow() < end;) {
                std::vector<uint64_t> c(cur);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (tryIt(c)) {
                    progress = true;
                    continue;
                }
                // zero the block instead
                bool nz = false;
                for (std::size_t k = 0; k < len; ++k)
                    nz |= cur[i + k] != 0;
                if (nz && len <= 16) {
                    c = cur;
                    std::fill(c.begin() + i, c.begin() + i + len, 0);
                    if (tryIt(c)) {
                        progress = true;
                        i += len;
                        continue;
                    }
                }
                i += len;
            }
        }
        for (std::size_t i = 0; i < cur.size() && realNow() < end; ++i) {
            uint64_t lo = 0;
            while (i < cur.size() && lo < cur[i] && realNow() < end) {
                uint64_t              mid = lo + (cur[i] - lo) / 2;
                std::vector<uint64_t> c(cur);
                c[i] = mid;
                if (tryIt(c))
                    progress = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return cur;
}

static std::string jsonEsc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += (char)ch;
        }
        else if (ch < 32 || ch >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += (char)ch;
    }
    return o;
}

static void writeReplay(const std::string           &path,
                        const Target                &t,
                        const std::vector<uint64_t> &ch,
                        const std::string           &msg,
                        const std::string           &trace)
{
    std::ofstream f(path);
    f << "target " << t.name << "\n";
    f << "choices " << ch.size();
    for (auto v : ch)
        f << " " << v;
    f << "\n";
    std::istringstream a(msg), b(trace);
    std::string        line;
    f << "# failure:\n";
    while (std::getline(a, line))
        f << "#   " << line << "\n";
    f << "# history:\n";
    while (std::getline(b, line))
        f << "#   " << line << "\n";
}

static void seedCtx(Ctx &c, uint64_t seed, const Target &t, uint64_t index)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + hashStr(t.name);
    splitmix(x);
    x += index * 0xd1342543de82ef95ull;
    c.s[0] = splitmix(x);
    c.s[1] = splitmix(x) | 1;
}

static void rmTree(const std::string &d)
{
    std::string cmd = "rm -rf -- '" + d + "'";
    if (system(cmd.c_str())) {
    }
}

}  // namespace pbt

using namespace pbt;

static int usage()
{
    fprintf(stderr,
            "usage: --list | --target T [--cases N] [--seconds S] [--seed X] "
            "[--jobs J] [--out F] [--replaydir D] [--case I] | --replay F\n");
    return 2;
}

int main(int argc, char **argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") {
            for (auto &t : targets())
                printf("%s\t%s\n", t.name.c_str(), t.rule.c_str());
            return 0;
        }
        if (a.rfind("--", 0) == 0 && i + 1 < argc) {
            o[a.substr(2)] = argv[i + 1];
            ++i;
        }
        else
            return usage();
    }
    auto get = [&](const char *k, const char *d) {
        return o.count(k) ? o[k] : std::string(d);
    };
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/pbt.XXXXXX";
    g_tmp       = mkdtemp(tmpl);
    setenv("PBT_TMP", g_tmp.c_str(), 1);
    double caseLimit = atof(get("caselimit", "40").c_str());

    // ------------------------------------------------------------- replay
    if (o.count("replay")) {
        std::ifstream f(o["replay"]);
        std::string   w, name;
        f >> w >> name;
        std::size_t n;
        f >> w >> n;
        std::vector<uint64_t> ch(n);
        for (auto &v : ch)
            f >> v;
        for (auto &t : targets())
            if (t.name == name) {
                if (get("fork", "1") == "1") {
                    Outcome r = forkCase(t, ch, caseLimit);
                    // schedules of other processes are not part of the choices
                    for (int k = atoi(get("repeat", "1").c_str()); k > 1 && !bad(r.status); --k)
                        r = forkCase(t, ch, caseLimit);
                    printf("%s\n", r.trace.c_str());
                    printf("replay: %s %s\n",
                           statusName(r.status),
                           r.msg.c_str());
                    rmTree(g_tmp);
                    return bad(r.status) ? 1 : 0;
                }
                Ctx c;
                c.replay  = &ch;
                c.verbose = true;
                std::string msg;
                int         st = runCase(t, c, msg);
                c.flushTrace();
                printf("replay: %s %s\n", statusName(st), msg.c_str());
                rmTree(g_tmp);
                return bad(st) ? 1 : 0;
            }
        fprintf(stderr, "no such target\n");
        return 2;
    }

    const Target *tp = nullptr;
    for (auto &t : targets())
        if (t.name == get("target", ""))
            tp = &t;
    if (!tp)
        return usage();
    const Target &t    = *tp;
    uint64_t      seed = strtoull(get("seed", "1").c_str(), nullptr, 10);

    if (o.count("case")) {  // run one generated case verbosely, in-process
        Ctx c;
        seedCtx(c, seed, t, strtoull(o["case"].c_str(), nullptr, 10));
        c.verbose = true;
        std::string msg;
        double      b  = realNow();
        int         st = runCase(t, c, msg);
        c.flushTrace();
        printf("case: %s %s (%.1f ms, %zu choices, nontrivial=%d)\n",
               statusName(st),
               msg.c_str(),
               (realNow() - b) * 1e3,
               c.rec.size(),
               c.isNontrivial);
        rmTree(g_tmp);
        return bad(st) ? 1 : 0;
    }

    uint64_t    cases   = strtoull(get("cases", "1000").c_str(), nullptr, 10);
    double      seconds = atof(get("seconds", "60").c_str());
    int         jobs    = atoi(get("jobs", "8").c_str());
    std::string out = get("out", ""), rdir = get("replaydir", ".");
    double      shrinkBudget = atof(get("shrink", "40").c_str());

    double begin = realNow();
    struct W {
        pid_t       pid  = 0;
        int         fd   = -1;
        Recorder   *rec  = nullptr;
        uint64_t    next = 0;  // next index it will run
        std::string buf, err, msg;
        bool        done = false;
    };
    std::vector<W> ws(jobs);
    uint64_t       nEval = 0, nNon = 0, nDisc = 0, nFlaky = 0;
    std::set<uint64_t>                  distinct;
    std::map<std::string, uint64_t>     labels;
    std::vector<std::string>            samples, flaky;
    std::string                         violation, violMsg;

    auto spawn = [&](int k) {
        W  &w = ws[k];
        int p[2];
        if (pipe(p)) {
            perror("pipe");
            _exit(2);
        }
        if (!w.rec)
            w.rec = newRecorder();
        w.rec->count     = 0;
        w.rec->startedMs = 0;
        w.err = g_tmp + "/w" + std::to_string(k) + ".err";
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(p[0]);
            int fd = open(w.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            dup2(fd, 1);
            int nSamples = 0;
            for (uint64_t i = w.next; i < cases; i += jobs) {
                if (realNow() - begin > seconds)
                    break;
                Ctx c;
                seedCtx(c, seed, t, i);
                c.shm             = w.rec;
                w.rec->count      = 0;
                w.rec->caseIndex  = i;
                w.rec->startedMs  = (uint64_t)(realNow() * 1000);
                std::string msg;
                int         st = runCase(t, c, msg);
                w.rec->startedMs = 0;
                uint64_t h = 1469598103934665603ull;
                for (auto v : c.rec) {
                    h ^= v + 0x9e37;
                    h *= 1099511628211ull;
                }
                std::ostringstream os;
                os << "R " << i << " " << st << " " << c.isNontrivial << " "
                   << h;
                for (auto &l : c.labels)
                    os << " " << l;
                os << "\n";
                if (st == PASS && c.isNontrivial && nSamples < 2 && k < 4) {
                    ++nSamples;
                    std::string s = c.trace.str();
                    if (s.size() > 1500)
                        s.resize(1500);
                    std::string e;
                    for (char ch : s)
                        e += ch == '\n' ? '\x01' : ch;
                    os << "S " << e << "\n";
                }
                if (st == FAIL) {
                    std::string e = msg.substr(0, 600);
                    std::replace(e.begin(), e.end(), '\n', '\x01');
                    os << "M " << e << "\n";
                }
                std::string s = os.str();
                if (write(p[1], s.data(), s.size()) < 0)
                    _exit(43);
                if (st == FAIL)
                    _exit(41);
            }
            _exit(40);
        }
        close(p[1]);
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        w.pid  = pid;
        w.fd   = p[0];
        w.done = false;
        w.buf.clear();
        w.msg.clear();
    };

    for (int k = 0; k < jobs; ++k) {
        ws[k].next = k;
        spawn(k);
    }
    auto lastIndex = [&](int k) { return (uint64_t)ws[k].rec->caseIndex; };

    auto drain = [&](W &w) {
        char    b[65536];
        ssize_t n;
        while ((n = read(w.fd, b, sizeof b)) > 0) {
            w.buf.append(b, n);
            std::size_t p;
            while ((p = w.buf.find('\n')) != std::string::npos) {
                std::string line = w.buf.substr(0, p);
                w.buf.erase(0, p + 1);
                std::istringstream is(line);
                std::string        tag;
                is >> tag;
                if (tag == "R") {
                    uint64_t i, h;
                    int      st, nt;
                    is >> i >> st >> nt >> h;
                    w.next = i + jobs;
                    if (st == DISCARD) {
                        ++nDisc;
                        continue;
                    }
                    ++nEval;
                    if (nt) {
                        ++nNon;
                        distinct.insert(h);
                    }
                    std::string l;
                    while (is >> l)
                        ++labels[l];
                }
                else if (tag == "M") {
                    w.msg = line.substr(2);
                    std::replace(w.msg.begin(), w.msg.end(), '\x01', '\n');
                }
                else if (tag == "S") {
                    std::string s = line.substr(2);
                    std::replace(s.begin(), s.end(), '\x01', '\n');
                    samples.push_back(s);
                }
            }
            if (n < (ssize_t)sizeof b)
                break;
        }
        return n;
    };

    auto killAll = [&] {
        for (auto &w : ws)
            if (!w.done && w.pid) {
                kill(w.pid, SIGKILL);
                int s;
                waitpid(w.pid, &s, 0);
                w.done = true;
                close(w.fd);
            }
    };

    while (violation.empty()) {
        std::vector<struct pollfd> pf;
        std::vector<int>           idx;
        for (int k = 0; k < jobs; ++k)
            if (!ws[k].done) {
                pf.push_back({ws[k].fd, POLLIN, 0});
                idx.push_back(k);
            }
        if (pf.empty())
            break;
        poll(pf.data(), pf.size(), 500);
        for (std::size_t q = 0; q < pf.size(); ++q) {
            W   &w      = ws[idx[q]];
            bool failed = false;
            int  status = PASS;
            if (pf[q].revents) {
                ssize_t n = drain(w);
                if (n == 0) {
                    int s;
                    waitpid(w.pid, &s, 0);
                    close(w.fd);
                    w.done = true;
                    if (WIFEXITED(s) && WEXITSTATUS(s) == 40)
                        continue;
                    failed = true;
                    status = (WIFEXITED(s) && WEXITSTATUS(s) == 41) ? FAIL
                                                                    : CRASH;
                    if (status == CRASH)
                        ++nEval;
                }
            }
            uint64_t st0 = w.rec->startedMs;
            if (!w.done && st0 &&
                realNow() * 1000 - (double)st0 > caseLimit * 1000) {
                kill(w.pid, SIGKILL);
                int s;
                waitpid(w.pid, &s, 0);
                close(w.fd);
                w.done = true;
                failed = true;
                status = HANG;
                ++nEval;
            }
            if (!failed)
                continue;
            std::vector<uint64_t> ch(w.rec->v, w.rec->v + w.rec->count);
            uint64_t              idxCase = lastIndex(idx[q]);
            // Confirm on its own: three failures out of at most five runs.
            Outcome first;
            int     hits = 0;
            const int want = status == HANG ? 2 : 3;
            for (int r = 0; r < 2 * want - 1 && hits < want && r - hits < want; ++r) {
                Outcome oc = forkCase(t, ch, status == HANG ? caseLimit : caseLimit * 1.5);
                if (bad(oc.status)) {
                    first = oc;
                    ++hits;
                }
            }
            // What was observed is conclusive however rarely the schedule
            // that shows it comes up again.
            const bool certain = status == FAIL && w.msg.compare(0, 9, "[certain]") == 0;
            const bool steady  = hits >= want;
            if (certain && !steady) {
                first.status = FAIL;
                first.msg    = w.msg;
                hits         = want;
            }
            if (hits < want) {
                ++nFlaky;
                flaky.push_back("case " + std::to_string(idxCase) + " " +
                                statusName(status) + " reproduced " +
                                std::to_string(hits) + "/3: " + (first.msg.empty() ? w.msg : first.msg) +
                                (status == CRASH ? " | " + crashSummary(readFile(w.err), 0) : ""));
                fprintf(stderr,
                        "[%s] not reproducible (%d/3): case %llu %s %s\n%s\n",
                        t.name.c_str(),
                        hits,
                        (unsigned long long)idxCase,
                        statusName(status),
                        (first.msg.empty() ? w.msg : first.msg).c_str(),
                        status == CRASH ? readFile(w.err).c_str() : "");
                if (nFlaky < 20) {
                    w.next = idxCase + jobs;
                    spawn(idx[q]);
                }
                continue;
            }
            killAll();
            int                   steps = 0;
            std::vector<uint64_t> mini  = shrink(
                t,
                ch,
                first.status == HANG || !steady ? 0.0 : shrinkBudget,
                caseLimit,
                &steps);
            Outcome fin;
            hits = 0;
            for (int r = 0; r < 3 && hits == r && first.status != HANG && steady; ++r) {
                Outcome oc = forkCase(t, mini, caseLimit * 1.5);
                if (bad(oc.status)) {
                    fin = oc;
                    ++hits;
                }
            }
            if (hits < 3) {
                mini = ch;
                fin  = first;
            }
            mkdir(rdir.c_str(), 0755);
            std::string path = rdir + "/" + t.name + "-s" +
                               std::to_string(seed) + "-c" +
                               std::to_string(idxCase) + ".replay";
            writeReplay(path, t, mini, fin.msg, fin.trace);
            violation = path;
            violMsg   = std::string(statusName(fin.status)) + ": " + fin.msg;
            fprintf(stderr,
                    "[%s] FAILED case %llu, %zu choices shrunk to %zu in %d "
                    "steps\n%s\n%s\n",
                    t.name.c_str(),
                    (unsigned long long)idxCase,
                    ch.size(),
                    mini.size(),
                    steps,
                    violMsg.c_str(),
                    fin.trace.c_str());
            break;
        }
    }
    killAll();
    double wall = realNow() - begin;

    std::ostringstream js;
    js << "{\"target\":\"" << t.name << "\",\"rule\":\"" << jsonEsc(t.rule)
       << "\",\"seed\":" << seed << ",\"evaluations\":" << nEval
       << ",\"nontrivial\":" << nNon
       << ",\"distinct_nontrivial\":" << distinct.size()
       << ",\"discarded\":" << nDisc << ",\"requested\":" << cases
       << ",\"wall_s\":" << wall << ",\"labels\":{";
    bool firstL = true;
    for (auto &l : labels) {
        js << (firstL ? "" : ",") << "\"" << jsonEsc(l.first)
           << "\":" << l.second;
        firstL = false;
    }
    js << "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size() && i < 4; ++i)
        js << (i ? "," : "") << "\"" << jsonEsc(samples[i]) << "\"";
    js << "],\"unreproduced\":[";
    for (std::size_t i = 0; i < flaky.size(); ++i)
        js << (i ? "," : "") << "\"" << jsonEsc(flaky[i]) << "\"";
    js << "],\"violation\":\"" << jsonEsc(violation) << "\",\"message\":\""
       << jsonEsc(violMsg) << "\"}\n";
    if (!out.empty()) {
        std::ofstream f(out);
        f << js.str();
    }
    else
        printf("%s", js.str().c_str());
    rmTree(g_tmp);
    return violation.empty() ? 0 : 1;
}
