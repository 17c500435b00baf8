// P18, P21, P24: the buffer pool, name resolution and event signals.
#include "pbt.h"
#include "sysdns.h"
#include "vclock.h"

#include <amqpprox_backend.h>
#include <amqpprox_buffer.h>
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_dnsresolver.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_eventsourcesignal.h>

#include <boost/asio.hpp>

#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <netdb.h>
#include <thread>
#include <unistd.h>

using namespace Bloomberg::amqpprox;
using pbt::Ctx;

extern "C" std::size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

// ------------------------------------------------------------------ buffers
namespace {
struct Held {
    BufferHandle h;
    std::size_t  size   = 0;
    bool         set    = false;
    long         bucket = -1;  // index into sizes, -1: heap
    uint64_t     tag    = 0;
};
const char *patternOf(uint64_t tag)
{
    static std::string t = [] {
        std::string x(400000, 0);
        uint64_t    v = 88172645463325252ull;
        for (auto &ch : x) {
            v ^= v << 13;
            v ^= v >> 7;
            v ^= v << 17;
            ch = (char)(v >> 33);
        }
        return x;
    }();
    return t.data() + tag * 7919 % 190001;
}
void fill(Held &x)
{
    memcpy(x.h.data(), patternOf(x.tag), x.size);
}
std::vector<std::size_t> genBuckets(Ctx &c)
{
    std::vector<std::size_t> b;
    if (c.chance(1, 4))
        b = {32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072};
    else
        for (std::size_t i = 0, n = c.below(7); i < n; ++i) {
            std::size_t s = c.flip() ? c.range(1, 64) : c.flip() ? (std::size_t)1 << c.below(15) : c.range(1, 20000);
            if (std::find(b.begin(), b.end(), s) == b.end())
                b.push_back(s);
        }
    return b;
}
std::size_t genSize(Ctx &c, const std::vector<std::size_t> &b)
{
    if (!b.empty() && c.chance(3, 4)) {
        std::size_t s = c.pick(b);
        switch (c.below(4)) {
        case 0: return s;
        case 1: return s + 1;
        case 2: return s - 1;
        default: return c.below(s + 1);
        }
    }
    return c.chance(1, 8) ? c.range(1, 200000) : c.below(300);
}
}

PBT_TARGET(pool_any, "at least 2 buckets, 12 acquisitions, one reuse of a released buffer's bucket and one heap spill or swap")
{
    auto                     in = genBuckets(c);
    std::vector<std::size_t> sizes(in);
    std::sort(sizes.begin(), sizes.end());
    c.note("buckets: ", sizes.size());
    auto pool = std::make_unique<BufferPool>(in);
    std::deque<std::unique_ptr<Held>> held(1 + c.below(24));
    for (auto &h : held)
        h = std::make_unique<Held>();
    // The high-water mark may or may not count a buffer about to be replaced.
    std::vector<uint64_t> cur(sizes.size()), high(sizes.size()), low(sizes.size()), freed(sizes.size());
    uint64_t              spills = 0, tag = 0, acquired = 0, reused = 0, swaps = 0;
    auto                  verify = [&](const char *when) {
        for (auto &x : held) {
            c.check((x->h.data() != nullptr) == x->set, when, ": a handle is ", x->set ? "empty though it holds a buffer" : "set though it holds nothing");
            c.check(x->h.size() == x->size, when, ": a handle reports size ", x->h.size(), " instead of ", x->size);
            if (!x->set)
                c.check(x->h.source() == nullptr, when, ": an empty handle still names a source");
            c.check(!x->size || !memcmp(x->h.data(), patternOf(x->tag), x->size), when, ": a held buffer of ", x->size, " was overwritten by another holder");
        }
        // ranges are disjoint
        std::vector<std::pair<const char *, const char *>> r;
        for (auto &x : held)
            if (x->set && x->size)
                r.push_back({(const char *)x->h.data(), (const char *)x->h.data() + (x->bucket >= 0 ? sizes[x->bucket] : x->size)});
        std::sort(r.begin(), r.end());
        for (std::size_t i = 1; i < r.size(); ++i)
            c.check(r[i - 1].second <= r[i].first, when, ": two held buffers share memory");
        std::vector<BufferPool::BufferAllocationStat> st;
        uint64_t                                      sp = 0;
        pool->getPoolStatistics(&st, &sp);
        c.check(st.size() == sizes.size(), when, ": statistics of ", st.size(), " sizes instead of ", sizes.size());
        for (std::size_t i = 0; i < st.size(); ++i) {
            c.check(std::get<0>(st[i]) == sizes[i], when, ": statistics name size ", std::get<0>(st[i]), " where ", sizes[i], " was configured");
            c.check(std::get<1>(st[i]) == cur[i], when, ": ", std::get<1>(st[i]), " buffers of ", sizes[i], " reported in use instead of ", cur[i]);
            c.check(std::get<2>(st[i]) <= high[i] && std::get<2>(st[i]) >= low[i], when, ": high-water mark of ", sizes[i], " reported as ", std::get<2>(st[i]), " instead of ", low[i], "..", high[i]);
        }
        c.check(sp == spills, when, ": spill-over of ", sp, " reported instead of ", spills);
    };
    auto drop = [&](Held &x) {
        if (x.set && x.bucket >= 0) {
            --cur[x.bucket];
            ++freed[x.bucket];
        }
        x.set    = false;
        x.size   = 0;
        x.bucket = -1;
    };
    auto acquire = [&](Held &x, std::size_t n) {
        long b = std::lower_bound(sizes.begin(), sizes.end(), n) - sizes.begin();
        if (b == (long)sizes.size())
            b = -1;
        if (b >= 0) {
            ++cur[b];
            high[b] = std::max(high[b], cur[b]);
            if (freed[b])
                ++reused;
        }
        else
            ++spills;
        pool->acquireBuffer(&x.h, n);
        drop(x);
        x.set    = true;
        x.size   = n;
        x.bucket = b;
        x.tag    = ++tag;
        ++acquired;
        if (b >= 0)
            low[b] = std::max(low[b], cur[b]);
        c.check(x.h.data() != nullptr, "no buffer for a request of ", n);
        fill(x);
    };
    std::size_t steps = 4 + c.below(120);
    for (std::size_t s = 0; s < steps; ++s) {
        auto &x = held[c.below(held.size())];
        switch (c.weighted({6, 2, 1, 1, 1, 1})) {
        case 0: {
            std::size_t n = genSize(c, sizes);
            c.note("acquire ", n, x->set ? " over a held buffer" : "");
            acquire(*x, n);
            break;
        }
        case 1:
            c.note("release ", x->size);
            x->h.release();
            drop(*x);
            break;
        case 2: {
            auto &y = c.pick(held);
            c.note("swap");
            x->h.swap(y->h);
            std::swap(x->size, y->size);
            std::swap(x->set, y->set);
            std::swap(x->bucket, y->bucket);
            std::swap(x->tag, y->tag);
            swaps += x.get() != y.get();
            break;
        }
        case 3: {
            c.note("destroy");
            drop(*x);
            x = std::make_unique<Held>();
            break;
        }
        case 4: {
            // a handle taken over from a temporary, as the session does
            std::size_t n = genSize(c, sizes);
            c.note("acquire ", n, " into a temporary, swap it in");
            {
                Held t;
                acquire(t, n);
                x->h.swap(t.h);
                std::swap(x->size, t.size);
                std::swap(x->set, t.set);
                std::swap(x->bucket, t.bucket);
                std::swap(x->tag, t.tag);
                drop(t);
            }
            ++swaps;
            break;
        }
        default: {
            c.note("rewrite");
            x->tag = ++tag;
            fill(*x);
            break;
        }
        }
        if (s % 8 == 7 || s + 1 == steps)
            verify("during the history");
    }
    // What is released becomes available again: repeating the same demand
    // takes no more memory.
    if (__sanitizer_get_current_allocated_bytes && !sizes.empty() && c.chance(1, 3)) {
        for (auto &x : held) {
            x->h.release();
            drop(*x);
        }
        std::size_t n = 1 + c.below(40), want = c.pick(sizes), base = 0, grown = 0;
        std::size_t rounds = 0;
        for (; rounds < 60; ++rounds) {
            {
                std::vector<std::unique_ptr<BufferHandle>> v(n);
                for (auto &h : v) {
                    h = std::make_unique<BufferHandle>();
                    pool->acquireBuffer(h.get(), want);
                    memset(h->data(), 0x77, want);
                }
            }
            std::size_t now = __sanitizer_get_current_allocated_bytes();
            if (rounds == 1)
                base = now;
            grown = now > base ? now - base : 0;
        }
        c.label("recycling");
        // 58 further rounds of one buffer each would need this much if kept
        c.check(grown < want * 29 + 4096, "60 rounds of acquiring and releasing ", n, " buffers of ", want, " took ", grown, " more bytes");
        long b = std::lower_bound(sizes.begin(), sizes.end(), want) - sizes.begin();
        high[b] = std::max<uint64_t>(high[b], n);
        low[b]  = std::max<uint64_t>(low[b], n);
        verify("after recycling");
    }
    for (auto &x : held) {
        if (c.flip())
            x->h.release();
        drop(*x);
    }
    if (c.flip()) {
        for (auto &x : held)
            x = std::make_unique<Held>();
        verify("at the end");
    }
    held.clear();
    if (sizes.size() >= 2 && acquired >= 12 && reused && (spills || swaps))
        c.nontrivial();
}

// A Buffer is a cursor over memory it does not own.
PBT_TARGET(cursor_any, "at least 6 operations with a write that fits and one that does not")
{
    std::size_t             n = c.below(64);
    std::unique_ptr<char[]> mem(new char[n]);
    std::string             model = c.bytes(n);
    memcpy(mem.get(), model.data(), n);
    Buffer      b((void *)mem.get(), n);
    std::size_t off = 0, steps = 1 + c.below(30), fit = 0, unfit = 0;
    for (std::size_t s = 0; s < steps; ++s) {
        std::size_t left = n - off;
        switch (c.below(8)) {
        case 0: {
            std::size_t k = c.below(left + 1);
            b.skip(k);
            off += k;
            break;
        }
        case 1: {
            off = c.below(n + 1);
            b.seek(off);
            break;
        }
        case 2: {
            std::size_t k = c.below(left + 1);
            Buffer      t = b.consume(k);
            c.check(t.size() == k && t.available() == k && !memcmp(t.ptr(), model.data() + off, k), "consume gave something else");
            off += k;
            break;
        }
        case 3: {
            std::string w = c.bytes(c.below(12));
            bool        ok = b.writeIn(Buffer((const void *)w.data(), w.size()));
            c.check(ok == (w.size() <= left), "writeIn of ", w.size(), " with ", left, " left gave ", ok);
            if (ok) {
                model.replace(off, w.size(), w);
                off += w.size();
            }
            ++(ok ? fit : unfit);
            break;
        }
        case 4: {
            std::string w = c.bytes(c.below(12));
            bool        ok = b.assign(Buffer((const void *)w.data(), w.size()));
            c.check(ok == (w.size() <= left), "assign of ", w.size(), " with ", left, " left gave ", ok);
            if (ok)
                model.replace(off, w.size(), w);
            break;
        }
        case 5: {
            uint32_t v  = (uint32_t)c.edgy(32);
            bool     ok = b.writeIn(v);
            c.check(ok == (left >= 4), "writeIn of 4 bytes with ", left, " left gave ", ok);
            if (ok) {
                model.replace(off, 4, std::string((const char *)&v, 4));
                off += 4;
            }
            ++(ok ? fit : unfit);
            break;
        }
        case 6:
            if (left >= 8) {
                uint64_t v = b.copy<uint64_t>(), e;
                memcpy(&e, model.data() + off, 8);
                c.check(v == e, "copy read something else");
                off += 8;
            }
            break;
        default: {
            Buffer r = b.remaining(), d = b.currentData();
            c.check(r.size() == left && r.offset() == 0 && !memcmp(r.ptr(), model.data() + off, left), "remaining() is wrong");
            c.check(d.size() == off && d.offset() == 0 && !memcmp(d.ptr(), model.data(), off), "currentData() is wrong");
            std::string other = model;
            if (c.flip() && n)
                other[c.below(n)] ^= (char)(1 + c.below(255));
            Buffer o((const void *)other.data(), n);
            c.check(Buffer((void *)mem.get(), n).equalContents(o) == (other == model), "equalContents() is wrong");
            break;
        }
        }
        c.check(b.offset() == off && b.available() == n - off && b.size() == n, "offset ", b.offset(), " available ", b.available(), " instead of ", off, " ", n - off);
        c.check(!memcmp(mem.get(), model.data(), n), "contents differ from the model");
    }
    if (steps >= 6 && fit && unfit)
        c.nontrivial();
}

// ------------------------------------------------------------------- events
namespace {
using Signal = EventSourceSignal<uint64_t, const std::string &, std::string, std::shared_ptr<std::string>>;
struct Sub {
    int         signal;
    bool        live = true;
    uint64_t    calls = 0;   // in total
    uint64_t    must = 0, may = 0;  // bounds on it
    // what it does when called: 0 nothing, 1 drop itself, 2 drop another, 3 subscribe
    // another, 4 emit on another signal, 5 replace another's handle
    int         act = 0;
    int         actArg = 0;
};
}

PBT_TARGET(events_any, "at least 3 subscribers, 3 emissions and 2 handles moved, replaced or changed during an emission")
{
    struct State {
        Ctx                                                   &c;
        std::vector<std::shared_ptr<Signal>>                   sig;
        std::vector<std::unique_ptr<EventSubscriptionHandle>>  slot;
        std::vector<long>                                      owner;  // slot -> subscriber
        std::vector<Sub>                                       subs;
        int                                                    depth = 0;
        uint64_t                                               emissions = 0, changes = 0, value = 0;
        std::vector<std::vector<char>>                         stable;  // per emission in progress: subs live throughout
        std::vector<std::vector<uint64_t>>                     seen;
        std::vector<int>                                       which;
        std::vector<std::pair<uint64_t, std::string>>          args;

        void kill(long s)
        {
            if (s < 0)
                return;
            subs[s].live = false;
            for (auto &st : stable)
                if ((std::size_t)s < st.size())
                    st[s] = 0;
        }
        long make(int signal, EventSubscriptionHandle *out)
        {
            long s = subs.size();
            subs.push_back({signal});
            if (c.chance(1, 3)) {
                subs[s].act    = 1 + (int)c.below(5);
                subs[s].actArg = (int)c.below(64);
            }
            *out = sig[signal]->subscribe([this, s](uint64_t v, const std::string &t, std::string own, std::shared_ptr<std::string> p) {
                c.check(own == "a value of its own " + t, "subscriber ", s, " called with ", pbt::show(own), " after ", v);
                c.check(p && *p == t, "subscriber ", s, " called with another pointer");
                own.clear();
                p.reset();
                called(s, v, t);
            });
            return s;
        }
        void called(long s, uint64_t v, const std::string &t)
        {
            c.check(depth > 0, "subscriber ", s, " called without an emission");
            c.check(which.back() == subs[s].signal, "subscriber ", s, " of signal ", subs[s].signal, " called by an emission of ", which.back());
            c.check(v == args.back().first && t == args.back().second, "subscriber ", s, " called with ", v, " ", pbt::show(t));
            auto &n = seen.back();
            if (n.size() <= (std::size_t)s)
                n.resize(s + 1);
            c.check(n[s] == 0, "subscriber ", s, " called twice by one emission");
            ++n[s];
            // A subscriber gone before the emission began is never called.
            c.check(subs[s].live || (std::size_t)s < aliveAtStart.back().size() && aliveAtStart.back()[s], "subscriber ", s, " called after its handle was released");
            int act = subs[s].act, arg = subs[s].actArg;
            subs[s].act = 0;
            if (!act)
                return;
            ++changes;
            if (act == 1) {
                for (std::size_t i = 0; i < slot.size(); ++i)
                    if (owner[i] == s) {
                        slot[i]->release();
                        kill(s);
                        owner[i] = -1;
                    }
            }
            else if (act == 2) {
                std::size_t i = arg % slot.size();
                kill(owner[i]);
                owner[i] = -1;
                slot[i]  = std::make_unique<EventSubscriptionHandle>();
            }
            else if (act == 3 || act == 5) {
                std::size_t i = arg % slot.size();
                if (act == 3 && owner[i] >= 0)
                    return;
                put(i, arg % sig.size());
            }
            else if (act == 4 && depth < 3)
                emit(arg % sig.size());
        }
        std::vector<std::vector<char>> aliveAtStart;
        void put(std::size_t i, int signal)
        {
            if (!sig[signal])
                return;
            EventSubscriptionHandle h;
            long                    s = make(signal, &h);
            kill(owner[i]);
            owner[i] = s;
            *slot[i] = std::move(h);
        }
        void emit(int g)
        {
            if (!sig[g])
                return;
            ++emissions;
            ++depth;
            std::vector<char> live;
            for (auto &s : subs)
                live.push_back(s.live && s.signal == g);
            stable.push_back(live);
            aliveAtStart.push_back(live);
            seen.push_back({});
            which.push_back(g);
            uint64_t    v = ++value;
            std::string t = std::to_string(v * 7);
            args.push_back({v, t});
            sig[g]->emit(v, t, "a value of its own " + t, std::make_shared<std::string>(t));
            for (std::size_t i = 0; i < stable.back().size(); ++i)
                if (stable.back()[i])
                    c.check(i < seen.back().size() && seen.back()[i] == 1, "subscriber ", i, " not called by an emission of its event");
            stable.pop_back();
            aliveAtStart.pop_back();
            seen.pop_back();
            which.pop_back();
            args.pop_back();
            --depth;
        }
    };
    State st{c};
    for (std::size_t i = 0, n = 1 + c.below(3); i < n; ++i)
        st.sig.push_back(Signal::create());
    for (std::size_t i = 0, n = 1 + c.below(8); i < n; ++i) {
        st.slot.push_back(std::make_unique<EventSubscriptionHandle>());
        st.owner.push_back(-1);
    }
    std::size_t steps = 3 + c.below(50);
    for (std::size_t s = 0; s < steps; ++s) {
        std::size_t i = c.below(st.slot.size()), j = c.below(st.slot.size());
        switch (c.weighted({5, 5, 2, 1, 2, 2, 2, 1})) {
        case 0: {
            int g = (int)c.below(st.sig.size());
            if (!st.sig[g])
                break;
            st.changes += st.owner[i] >= 0;
            c.note("subscribe to ", g, " in slot ", i, st.owner[i] >= 0 ? " over a live one" : "");
            st.put(i, g);
            break;
        }
        case 1: {
            int g = (int)c.below(st.sig.size());
            c.note("emit ", g);
            st.emit(g);
            break;
        }
        case 2:
            c.note("release slot ", i);
            st.slot[i]->release();
            st.kill(st.owner[i]);
            st.owner[i] = -1;
            break;
        case 3:
            c.note("destroy slot ", i);
            st.slot[i] = std::make_unique<EventSubscriptionHandle>();
            st.kill(st.owner[i]);
            st.owner[i] = -1;
            break;
        case 4: {
            c.note("move-construct from slot ", i);
            auto n     = std::make_unique<EventSubscriptionHandle>(std::move(*st.slot[i]));
            st.slot[i] = std::move(n);
            ++st.changes;
            break;
        }
        case 5:
            if (i == j)
                break;
            c.note("move slot ", i, " into slot ", j);
            *st.slot[j] = std::move(*st.slot[i]);
            st.kill(st.owner[j]);
            st.owner[j] = st.owner[i];
            st.owner[i] = -1;
            ++st.changes;
            break;
        case 6:
            c.note("swap slots ", i, " and ", j);
            std::swap(*st.slot[i], *st.slot[j]);
            std::swap(st.owner[i], st.owner[j]);
            ++st.changes;
            break;
        default:
            if (c.chance(1, 4) && st.sig.size() > 1) {
                std::size_t g = c.below(st.sig.size());
                c.note("destroy signal ", g);
                st.sig[g].reset();
                for (auto &x : st.subs)
                    if ((std::size_t)x.signal == g)
                        x.live = false;
            }
        }
    }
    for (std::size_t g = 0; g < st.sig.size(); ++g)
        st.emit((int)g);
    for (std::size_t i = 0; i < st.slot.size(); ++i) {
        st.slot[i].reset();
        st.kill(st.owner[i]);
        st.owner[i] = -1;
    }
    st.slot.clear();
    st.slot.push_back(std::make_unique<EventSubscriptionHandle>());
    st.owner = {-1};
    for (std::size_t g = 0; g < st.sig.size(); ++g)
        st.emit((int)g);
    if (st.subs.size() >= 3 && st.emissions >= 3 && st.changes >= 2)
        c.nontrivial();
}

// The program's own set of events: each is heard by its own subscribers only.
PBT_TARGET(eventsource_any, "at least 6 subscriptions and 6 emissions over at least 3 different events")
{
    EventSource es;
    struct Rec {
        int                                      event;
        std::vector<std::string>                 got, want;
        std::unique_ptr<EventSubscriptionHandle> h;
    };
    std::vector<std::unique_ptr<Rec>> recs;
    std::set<int>                     used;
    std::size_t                       emissions = 0;
    const Backend                     backend("n", "dc", "h", "127.0.0.1", 1);
    auto                              sub = [&](Rec *r) {
        auto id = [r](uint64_t v) { r->got.push_back(std::to_string(v)); };
        switch (r->event) {
        case 0: return es.connectionReceived().subscribe(id);
        case 1: return es.connectionVhostEstablished().subscribe([r](uint64_t v, const std::string &s) { r->got.push_back(std::to_string(v) + s); });
        case 2: return es.connectionEstablished().subscribe(id);
        case 3: return es.connectionFailed().subscribe([r](const Backend &b) { r->got.push_back(b.name()); });
        case 4: return es.brokerConnectionSnapped().subscribe(id);
        case 5: return es.clientConnectionSnapped().subscribe(id);
        case 6: return es.cleanDisconnectClient().subscribe(id);
        default: return es.statisticsAvailable().subscribe([r](StatCollector *p) { r->got.push_back(std::to_string((uintptr_t)p)); });
        }
    };
    for (std::size_t s = 0, n = 4 + c.below(40); s < n; ++s) {
        int e = (int)c.below(8);
        switch (c.below(5)) {
        case 0:
        case 1: {
            recs.push_back(std::make_unique<Rec>());
            auto *r  = recs.back().get();
            r->event = e;
            r->h     = std::make_unique<EventSubscriptionHandle>(sub(r));
            used.insert(e);
            c.note("subscribe to event ", e);
            break;
        }
        case 2:
            if (!recs.empty()) {
                auto &r = c.pick(recs);
                c.note("release a subscriber of event ", r->event);
                r->h.reset();
            }
            break;
        default: {
            uint64_t    v = c.edgy(64);
            std::string t = c.bytes(c.below(40)), want = std::to_string(v);
            c.note("emit event ", e);
            switch (e) {
            case 0: es.connectionReceived().emit(v); break;
            case 1: es.connectionVhostEstablished().emit(v, t), want += t; break;
            case 2: es.connectionEstablished().emit(v); break;
            case 3: es.connectionFailed().emit(backend), want = "n"; break;
            case 4: es.brokerConnectionSnapped().emit(v); break;
            case 5: es.clientConnectionSnapped().emit(v); break;
            case 6: es.cleanDisconnectClient().emit(v); break;
            default: es.statisticsAvailable().emit((StatCollector *)(uintptr_t)v), want = std::to_string((uintptr_t)v); break;
            }
            ++emissions;
            for (auto &r : recs) {
                if (r->event == e && r->h)
                    r->want.push_back(want);
                c.check(r->got == r->want, "a subscriber of event ", r->event, r->h ? "" : " that was released", " has been called ", r->got.size(), " times instead of ", r->want.size(), " after an emission of event ", e);
            }
        }
        }
    }
    if (recs.size() >= 6 && emissions >= 6 && used.size() >= 3)
        c.nontrivial();
}

// Subscribing, releasing and emitting from several threads at once.
PBT_TARGET(events_threads, "at least 2 threads subscribing while another emits, every permanent subscriber counted")
{
    auto                  sig = EventSource();
    std::atomic<uint64_t> permanent{0}, transient{0}, live{0}, late{0};
    auto                  keep = sig.connectionReceived().subscribe([&](uint64_t) { ++permanent; });
    unsigned              threads = 2 + (unsigned)c.below(3), emitters = 1 + (unsigned)c.below(2), rounds = 20 + (unsigned)c.below(200);
    std::vector<std::thread> v;
    std::atomic<unsigned>    go{0};
    for (unsigned t = 0; t < threads; ++t)
        v.emplace_back([&] {
            ++go;
            while (go < threads + emitters)
                ;
            for (unsigned i = 0; i < rounds; ++i) {
                EventSubscriptionHandle h = sig.connectionReceived().subscribe([&](uint64_t) { ++transient; });
                if (i % 3 == 0)
                    h.release();
                else if (i % 3 == 1) {
                    EventSubscriptionHandle g(std::move(h));
                }
            }
        });
    for (unsigned t = 0; t < emitters; ++t)
        v.emplace_back([&] {
            ++go;
            while (go < threads + emitters)
                ;
            for (unsigned i = 0; i < rounds; ++i)
                sig.connectionReceived().emit(i);
        });
    for (auto &t : v)
        t.join();
    uint64_t before = transient;
    c.check(permanent == (uint64_t)emitters * rounds, "a subscriber held throughout was called ", permanent.load(), " times by ", emitters * rounds, " emissions");
    sig.connectionReceived().emit(1);
    c.check(transient == before, "subscribers whose handles are gone are still called");
    if (threads >= 2)
        c.nontrivial();
}

// ------------------------------------------------------------------- lookup
namespace {
using Answer = std::vector<std::pair<std::string, int>>;
struct Call {
    std::string host, service;
    int         err = 0;
    Answer      answer;
    uint64_t    seq = 0;
};
// The system resolver: answers are decided when a lookup is let through.
struct System {
    std::mutex              m;
    std::condition_variable cv;
    std::deque<Call>        waiting;  // asked, held
    std::deque<Call>        ready;    // decided
    bool                    quit = false;
    uint64_t                asked = 0;
    bool operator()(const std::string &h, const std::string &s, int *err, Answer *at)
    {
        std::unique_lock<std::mutex> l(m);
        ++asked;
        waiting.push_back({h, s});
        cv.notify_all();
        cv.wait(l, [&] { return quit || !ready.empty(); });
        if (quit) {
            *err = EAI_AGAIN;
            return true;
        }
        *err = ready.front().err;
        *at  = ready.front().answer;
        ready.pop_front();
        cv.notify_all();
        return true;
    }
};
Answer genAnswer(Ctx &c, uint64_t seq)
{
    Answer a;
    for (std::size_t i = 0, n = 1 + c.below(4); i < n; ++i)
        a.push_back({c.chance(1, 4) ? "2001:db8::" + std::to_string(1 + seq % 9000) : "10." + std::to_string(i) + "." + std::to_string(seq / 250 % 250) + "." + std::to_string(1 + seq % 250), (int)(1 + c.below(65535))});
    return a;
}
Answer toAnswer(const std::vector<boost::asio::ip::tcp::endpoint> &v)
{
    Answer a;
    for (auto &e : v)
        a.push_back({e.address().to_string(), e.port()});
    return a;
}
std::string show(const Answer &a)
{
    std::string s;
    for (auto &x : a)
        s += (s.empty() ? "" : ",") + x.first + "/" + std::to_string(x.second);
    return s.empty() ? "nothing" : s;
}
}

PBT_TARGET(dns_any, "at least 3 lookups, one answered from the cache and one after a clearing or failure")
{
    vclock::enable();
    using Key       = std::pair<std::string, std::string>;
    bool   override = c.flip();
    System sys;
    boost::asio::io_context io;
    auto                    work = boost::asio::make_work_guard(io);
    DNSResolver             dns(io);
    struct Lookup {
        Key    key;
        bool   sync   = false;  // outcome already known
        int    calls  = 0;
        bool   failed = false, wantFail = false;
        Answer got, want;
    };
    std::deque<Lookup>       looks;
    std::deque<std::size_t>  inFlight;  // lookups with the system, in order
    std::map<Key, Answer>    cache;
    bool                     running = false;
    int64_t                  timeout = 1000, due = 0;
    uint64_t                 seq = 0, overrideCalls = 0, fromCache = 0, cleared = 0, failures = 0, afterClear = 0;
    std::set<Key>            forgotten;
    Call                     next;
    if (override)
        DNSResolver::setOverrideFunction([&](std::vector<boost::asio::ip::tcp::endpoint> *v, const std::string &h, const std::string &s) {
            ++overrideCalls;
            next.host    = h;
            next.service = s;
            if (next.err)
                return boost::system::error_code(boost::asio::error::host_not_found);
            for (auto &a : next.answer)
                v->push_back({boost::asio::ip::make_address(a.first), (unsigned short)a.second});
            return boost::system::error_code();
        });
    else
        sysHook() = std::ref(sys);
    struct Restore {
        System &s;
        ~Restore()
        {
            DNSResolver::setOverrideFunction({});
            {
                std::lock_guard<std::mutex> l(s.m);
                s.quit = true;
                s.cv.notify_all();
            }
        }
    };
    const std::vector<std::string> hosts = {"a", "ab", "b", "A", "host.example"}, services = {"1", "c", "bc", "5672", ""};
    auto                           forget = [&] {
        for (auto &k : cache)
            forgotten.insert(k.first);
        cleared += !cache.empty();
        cache.clear();
    };
    auto poll = [&] {
        io.poll();
        if (running && vclock::nowMs() >= due) {
            forget();
            due = vclock::nowMs() + timeout;
        }
        for (auto &l : looks)
            if (l.sync) {
                c.check(l.calls == 1, "a lookup of ", l.key.first, " ", l.key.second, " completed ", l.calls, " times");
                c.check(l.failed == l.wantFail, "a lookup of ", l.key.first, " ", l.key.second, l.failed ? " failed" : " succeeded");
                if (!l.wantFail)
                    c.check(l.got == l.want, "a lookup of ", l.key.first, " ", l.key.second, " gave ", show(l.got), " instead of ", show(l.want));
            }
            else
                c.check(l.calls == 0, "a lookup of ", l.key.first, " completed before the system answered");
    };
    {
        Restore     restore{sys};
        auto        answerOne = [&] {
            std::size_t i = inFlight.front();
            inFlight.pop_front();
            Call k;
            k.err = c.chance(1, 4) ? EAI_NONAME : 0;
            if (!k.err)
                k.answer = genAnswer(c, ++seq);
            {
                std::unique_lock<std::mutex> l(sys.m);
                for (int spin = 0; sys.waiting.empty() && spin < 100000; ++spin) {
                    l.unlock();
                    usleep(50);
                    l.lock();
                }
                c.check(!sys.waiting.empty(), "a lookup of ", looks[i].key.first, " ", looks[i].key.second, " was never made");
                Call w = sys.waiting.front();
                sys.waiting.pop_front();
                c.check(Key(w.host, w.service) == looks[i].key, "the system was asked for ", w.host, " ", w.service, " instead of ", looks[i].key.first, " ", looks[i].key.second);
                sys.ready.push_back(k);
                sys.cv.notify_all();
                sys.cv.wait(l, [&] { return sys.ready.empty(); });
            }
            looks[i].wantFail = k.err != 0;
            looks[i].want     = k.answer;
            if (k.err)
                ++failures;
            for (int spin = 0; looks[i].calls == 0 && spin < 20000; ++spin) {
                io.poll();
                if (!looks[i].calls)
                    usleep(50);
            }
            looks[i].sync = true;
            if (!k.err)
                cache[looks[i].key] = k.answer;
            c.note("  the system answers ", looks[i].key.first, " ", looks[i].key.second, ": ", k.err ? "error" : show(k.answer));
            poll();
        };
        std::size_t steps = 3 + c.below(50);
        for (std::size_t s = 0; s < steps; ++s) {
            Key key(c.pick(hosts), c.pick(services));
            if (c.flip() && !cache.empty())
                key = c.pick(cache).first;
            switch (c.weighted({8, 4, 3, 1, 1, 1, 1, 1})) {
            case 0: {
                looks.push_back({key});
                std::size_t i = looks.size() - 1;
                auto        it = cache.find(key);
                uint64_t    before = overrideCalls;
                next               = {};
                next.err           = override && c.chance(1, 4);
                if (override && !next.err)
                    next.answer = genAnswer(c, ++seq);
                c.note("look up ", key.first, " ", key.second, it != cache.end() ? " (cached)" : "");
                dns.resolve(key.first, key.second, [&looks, i](const boost::system::error_code &ec, const std::vector<boost::asio::ip::tcp::endpoint> &v) {
                    ++looks[i].calls;
                    looks[i].failed = !!ec;
                    looks[i].got    = toAnswer(v);
                });
                c.check(looks[i].calls == 0, "the callback ran inside resolve()");
                if (it != cache.end()) {
                    looks[i].sync = true;
                    looks[i].want = it->second;
                    ++fromCache;
                    c.check(overrideCalls == before, "a cached name was looked up again");
                }
                else if (override) {
                    c.check(overrideCalls == before + 1, "a name not in the cache was looked up ", overrideCalls - before, " times");
                    c.check(Key(next.host, next.service) == key, "looked up ", next.host, " ", next.service, " instead");
                    looks[i].sync     = true;
                    looks[i].wantFail = next.err;
                    looks[i].want     = next.answer;
                    failures += next.err;
                    if (!next.err)
                        cache[key] = next.answer;
                    afterClear += forgotten.count(key);
                }
                else {
                    inFlight.push_back(i);
                    afterClear += forgotten.count(key);
                }
                if (c.flip())
                    poll();
                break;
            }
            case 1:
                if (!inFlight.empty())
                    answerOne();
                else
                    poll();
                break;
            case 2: {
                int64_t ms = c.oneof<int64_t>({0, 1, 250, 500, timeout - 1, timeout, timeout + 1, 2 * timeout});
                poll();
                c.note("advance ", ms);
                vclock::addMs(ms);
                poll();
                break;
            }
            case 3: {
                Answer                                     a = genAnswer(c, ++seq);
                std::vector<boost::asio::ip::tcp::endpoint> v;
                for (auto &x : a)
                    v.push_back({boost::asio::ip::make_address(x.first), (unsigned short)x.second});
                c.note("set ", key.first, " ", key.second);
                dns.setCachedResolution(key.first, key.second, std::move(v));
                cache[key] = a;
                break;
            }
            case 4:
                c.note("clear ", key.first, " ", key.second);
                dns.clearCachedResolution(key.first, key.second);
                if (cache.erase(key))
                    forgotten.insert(key);
                break;
            case 5:
                poll();
                c.note("start the timer");
                dns.startCleanupTimer();
                if (!running) {
                    running = true;
                    due     = vclock::nowMs() + timeout;
                }
                break;
            case 6:
                poll();
                c.note("stop the timer");
                dns.stopCleanupTimer();
                running = false;
                if (c.flip())
                    poll();
                break;
            default:
                timeout = c.oneof<int64_t>({1, 10, 1000, 1500});
                c.note("period ", timeout);
                dns.setCacheTimeout((int)timeout);
                break;
            }
        }
        while (!inFlight.empty())
            answerOne();
        poll();
        dns.stopCleanupTimer();
        running = false;
        poll();
        for (auto &l : looks)
            c.check(l.calls == 1, "a lookup of ", l.key.first, " completed ", l.calls, " times");
        sysHook() = {};
    }
    if (!override)
        c.label("system");
    if (looks.size() >= 3 && fromCache && (afterClear || failures))
        c.nontrivial();
}
