// Runs random filter graphs under random load and logs every activation, request and reply.
// usage: sched_driver SEED SESSIONS PROFILE TRACE
//   PROFILE: mix | small | err | fs | cache | mem | flush | deep
#include "vsdrv.h"
#include "perturb.h"
#include <memory>
#include <deque>
#include <algorithm>

static std::atomic<int> tidc{0};
static thread_local int tid_ = 0;
static int tid() { if (!tid_) tid_ = ++tidc; return tid_; }

struct Plan { std::vector<std::pair<int, int>> rq; int fail = 0; /*1 initial 2 final*/ int failTimes = 0; bool direct = false, pass = false, early = false; int inner = -1; };
static void doSync(int v, int n);
struct Node {
    int id = 0, mode = 0, cacheCfg = 0, nf = 1; bool out = false;
    VSVideoInfo vi{};
    std::vector<std::pair<int, int>> deps;    // node index, pattern
    std::vector<Plan> plan;
    std::vector<std::atomic<int>> failed;
    VSNode *node = nullptr;
    std::atomic<int> freed{0};
    int delay = 0;
};
static VSCore *core;
static std::vector<std::unique_ptr<Node>> nodes;
static std::atomic<int> tokc{0}, uc{0}, reqc{0};
static std::atomic<int> pending{0};
static std::atomic<int> warnings{0}, flushes{0};
static std::mutex idm; static std::condition_variable idcv;
static uint64_t sseed = 1;
static int maxDelayUs = 100;
static thread_local Rng *trng = nullptr;
static Rng &rg() { if (!trng) trng = new Rng(sseed * 7919 + tid()); return *trng; }

static void nap(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }

static int frameU(const VSFrame *f) {   // identity of a frame: property and pixels must agree
    if (!f) return 0;
    int e; int64_t u = vs->mapGetInt(vs->getFramePropertiesRO(f), "u", 0, &e);
    if (e) return -1;
    int32_t px[2]; memcpy(px, vs->getReadPtr(f, 0), 8);
    const uint8_t *last = vs->getReadPtr(f, 0) + vs->getStride(f, 0) * (vs->getFrameHeight(f, 0) - 1) + vs->getFrameWidth(f, 0) - 1;
    if (px[0] != (int)u || px[1] != ~(int)u || *last != (uint8_t)u) return -2;
    return (int)u;
}

static const VSFrame *VS_CC gf(int n, int ar, void *inst, void **fd, VSFrameContext *fc, VSCore *c, const VSAPI *) {
    Node *N = (Node *)inst;
    Rng &r = rg();
    int tok;
    if (ar == arInitial) { tok = ++tokc; int old = (int)(intptr_t)fd[0]; fd[0] = (void *)(intptr_t)tok; emit(fmt("{\"op\":\"begin\",\"t\":%d,\"v\":%d,\"n\":%d,\"ar\":0,\"tok\":%d,\"old\":%d}", tid(), N->id, n, tok, old)); }
    else { tok = (int)(intptr_t)fd[0]; emit(fmt("{\"op\":\"begin\",\"t\":%d,\"v\":%d,\"n\":%d,\"ar\":%d,\"tok\":%d,\"old\":0}", tid(), N->id, n, ar, tok)); }
    if (N->delay) nap(r.chance(50) ? 0 : r.below(N->delay));
    std::string got, rq; int nul = 0;
    const char *res = "w"; int u = 0, msg = 0;
    const VSFrame *ret = nullptr;
    // what FrameEval and friends do: a blocking request from inside a filter call
    if (ar == arInitial && n >= 0 && n < N->nf && N->plan[n].inner >= 0) doSync(0, N->plan[n].inner);
    if (n < 0 || n >= N->nf || ar == arError) {
        res = "e";      // arError: nothing to do, the core already knows
    } else {
        Plan &P = N->plan[n];
        bool produce = false;
        auto doFail = [&] {
            msg = tok;
            vs->setFilterError(fmt("E%d", tok).c_str(), fc);
            res = "e";
        };
        bool willFail = P.fail && N->failed[n].load() < P.failTimes;
        if (ar == arInitial) {
            if (P.rq.empty() || P.direct) {
                if (willFail) { N->failed[n]++; doFail(); } else produce = true;
            } else {
                for (auto &q : P.rq) { rq += fmt("%s[%d,%d]", rq.empty() ? "" : ",", q.first, q.second); vs->requestFrameFilter(q.second, nodes[q.first]->node, fc); }
                if (willFail && P.fail == 1) { N->failed[n]++; doFail(); rq = ""; }
            }
        } else {
            std::vector<const VSFrame *> in;
            for (auto &q : P.rq) {
                const VSFrame *f = vs->getFrameFilter(q.second, nodes[q.first]->node, fc);
                got += fmt("%s[%d,%d,%d]", got.empty() ? "" : ",", q.first, q.second, frameU(f));
                in.push_back(f);
            }
            // a frame that was not requested must not be available
            int od = P.rq[0].first, on = r.below(nodes[od]->nf); bool asked = false;
            for (auto &q : P.rq) if (q.first == od && std::min(q.second, nodes[od]->nf - 1) == on) asked = true;
            if (!asked) { const VSFrame *f = vs->getFrameFilter(on, nodes[od]->node, fc); if (f) { nul++; vs->freeFrame(f); } }
            if (P.early) {
                // any of the requested frames is given back, in any order: it is gone and all others are still there
                auto canon = [](const std::pair<int, int> &q) { return std::make_pair(q.first, std::min(q.second, nodes[q.first]->nf - 1)); };
                std::set<std::pair<int, int>> gone;
                for (int k = r.range(1, (int)P.rq.size()); k > 0; k--) {
                    auto x = canon(P.rq[r.below((int)P.rq.size())]);
                    gone.insert(x);
                    vs->releaseFrameEarly(nodes[x.first]->node, x.second, fc);
                }
                for (auto &q : P.rq) {
                    const VSFrame *f = vs->getFrameFilter(canon(q).second, nodes[q.first]->node, fc);
                    if (gone.count(canon(q))) { if (f) nul++; }
                    else got += fmt(",[%d,%d,%d]", q.first, q.second, frameU(f));
                    if (f) vs->freeFrame(f);
                }
                if (frameU(in[0]) < -1) nul++;
            }
            if (willFail) { N->failed[n]++; doFail(); }
            else if (P.pass && in[0]) { ret = vs->addFrameRef(in[0]); u = frameU(ret); res = "f"; }
            else produce = true;
            for (auto f : in) if (f) vs->freeFrame(f);
        }
        if (produce) {
            u = ++uc;
            VSFrame *f = vs->newVideoFrame(&N->vi.format, N->vi.width, N->vi.height, nullptr, c);
            uint8_t *p = vs->getWritePtr(f, 0);
            int32_t px[2] = {u, ~u}; memcpy(p, px, 8);
            p[vs->getStride(f, 0) * (N->vi.height - 1) + N->vi.width - 1] = (uint8_t)u;
            vs->mapSetInt(vs->getFramePropertiesRW(f), "u", u, maReplace);
            ret = f; res = "f";
        }
        if (N->delay && r.chance(20)) nap(r.below(N->delay));
    }
    emit(fmt("{\"op\":\"end\",\"t\":%d,\"v\":%d,\"n\":%d,\"tok\":%d,\"res\":\"%s\",\"u\":%d,\"msg\":%d,\"rq\":[%s],\"got\":[%s],\"nul\":%d}", tid(), N->id, n, tok, res, u, msg, rq.c_str(), got.c_str(), nul));
    return ret;
}
static void VS_CC gfree(void *inst, VSCore *, const VSAPI *) { ((Node *)inst)->freed++; }

struct Req { int id, v, n, follow; };
static void issueAsync(int v, int n, int follow);
static int errId(const char *m) { if (!m) return 0; if (m[0] == 'E' && m[1] >= '0' && m[1] <= '9') return atoi(m + 1); return *m ? -2 : -3; }

static std::mutex heldm; static std::deque<const VSFrame *> held; static size_t holdMax = 0;
static void hold(const VSFrame *f) {
    if (!f) return;
    std::unique_lock<std::mutex> l(heldm);
    if (!holdMax) { l.unlock(); vs->freeFrame(f); return; }
    held.push_back(f);
    const VSFrame *d = nullptr;
    if (held.size() > holdMax) { d = held.front(); held.pop_front(); }
    l.unlock();
    if (d) vs->freeFrame(d);
}
static void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *node, const char *err) {
    Req *q = (Req *)ud;
    int v = -1; for (auto &x : nodes) if (x->node == node) v = x->id;
    emit(fmt("{\"op\":\"rep\",\"t\":%d,\"r\":%d,\"v\":%d,\"n\":%d,\"u\":%d,\"err\":%d,\"cb\":1}", tid(), q->id, v, n, frameU(f), errId(err)));
    if (rg().chance(20)) nap(rg().below(maxDelayUs));
    if (q->follow > 0) issueAsync(q->v, rg().below(nodes[q->v]->nf), q->follow - 1);
    emit(fmt("{\"op\":\"cbe\",\"t\":%d,\"r\":%d}", tid(), q->id));
    hold(f);
    delete q;
    std::lock_guard<std::mutex> l(idm);
    pending--;
    idcv.notify_all();
}
static void issueAsync(int v, int n, int follow) {
    Req *q = new Req{++reqc, v, n, follow};
    pending++;
    emit(fmt("{\"op\":\"req\",\"r\":%d,\"v\":%d,\"n\":%d,\"t\":%d}", q->id, v, n, tid()));
    vs->getFrameAsync(n, nodes[v]->node, done, q);
}
static void doSync(int v, int n) {
    int id = ++reqc;
    emit(fmt("{\"op\":\"req\",\"r\":%d,\"v\":%d,\"n\":%d,\"t\":%d}", id, v, n, tid()));
    char buf[64]; memset(buf, 'x', sizeof buf);
    int bs = rg().chance(20) ? 0 : rg().chance(50) ? 64 : 16;
    const VSFrame *f = vs->getFrame(n, nodes[v]->node, bs ? buf : nullptr, bs);
    int err = 0;
    if (!f) err = bs ? (memchr(buf, 0, bs) ? errId(buf) : -3) : -4;
    else if (bs && buf[0]) err = -3;      // a message next to a frame
    emit(fmt("{\"op\":\"rep\",\"t\":%d,\"r\":%d,\"v\":%d,\"n\":%d,\"u\":%d,\"err\":%d,\"cb\":0}", tid(), id, v, n, frameU(f), err));
    hold(f);
}

static void session(Rng &r, const std::string &prof0, int s) {
    std::string prof = prof0;
    if (prof == "mix") { static const char *P[] = {"small", "err", "fs", "cache", "mem", "deep", "small", "fs"}; prof = P[s % 8]; }
    sseed = r.next();
    int cf = ccfDisableAutoLoading | (r.chance(5) ? ccfEnableGraphInspection : 0);
    core = vs->createCore(cf);
    VSLogHandle *lh = vs->addLogHandler([](int t, const char *m, void *) {
        if (strstr(m, "flushed")) flushes++;
        if (t >= mtWarning) { warnings++; fprintf(stderr, "log %d: %s\n", t, m); } }, nullptr, nullptr, core);
    static const int ths[] = {1, 2, 2, 3, 4, 4, 8};
    int th = vs->setThreadCount(ths[r.below(7)], core);
    maxDelayUs = r.chance(30) ? 0 : r.chance(60) ? 60 : 400;
    bool mem = prof == "mem" || prof == "flush";
    int dim = mem ? 256 : 16;
    if (mem) vs->setMaxCacheSize(prof == "flush" ? 1 << 20 : (int64_t)(1 << 18) << r.below(4), core);
    holdMax = prof == "flush" ? 40 : mem ? r.below(12) : 0;
    int nn = prof == "deep" ? r.range(8, 16) : prof == "small" ? r.range(1, 4) : r.range(2, 8);
    nodes.clear();
    tokc = uc = reqc = 0; warnings = 0;
    std::string js;
    bool side = r.chance(35) || prof == "flush";      // node 0 is only requested from inside filters
    if (side && nn < 3) nn = 3;
    for (int i = 0; i < nn; i++) {
        auto N = std::make_unique<Node>();
        N->id = i;
        static const int modes[] = {fmParallel, fmParallelRequests, fmUnordered, fmFrameState};
        N->mode = prof == "fs" ? modes[r.chance(60) ? 3 : r.range(1, 3)] : modes[r.below(4)];
        N->nf = prof == "small" ? r.range(1, 6) : r.range(2, 24);
        if (prof == "flush") N->nf = 200;
        N->delay = r.chance(25) ? 0 : maxDelayUs;
        if (prof == "flush") N->delay = 1500;
        vs->queryVideoFormat(&N->vi.format, cfGray, stInteger, 8, 0, 0, core);
        N->vi.width = N->vi.height = dim; N->vi.fpsNum = 24; N->vi.fpsDen = 1; N->vi.numFrames = N->nf;
        int nd = i == 0 || (side && i == 1) ? 0 : r.chance(15) ? 0 : prof == "deep" ? r.range(1, 2) : r.range(1, 3);
        std::vector<VSFilterDependency> D;
        for (int k = 0; k < nd; k++) {
            int d = prof == "deep" && r.chance(70) ? i - 1 : r.below(i);
            if (side && d == 0) continue;
            bool dup = false; for (auto &x : N->deps) if (x.first == d) dup = true;
            if (dup) continue;
            int pat = rpGeneral;
            if (nodes[d]->nf >= N->nf) pat = r.chance(50) ? rpGeneral : r.chance(50) ? rpStrictSpatial : rpNoFrameReuse;
            else if (r.chance(40)) pat = rpFrameReuseLastOnly;
            N->deps.push_back({d, pat});
            D.push_back({nodes[d]->node, pat});
        }
        N->plan.resize(N->nf);
        N->failed = std::vector<std::atomic<int>>(N->nf);
        int errPct = prof == "err" ? 12 : 2;
        for (int n = 0; n < N->nf; n++) {
            Plan &P = N->plan[n];
            for (auto &d : N->deps) {
                int nf = nodes[d.first]->nf;
                if (d.second == rpGeneral) { int c = r.chance(70) ? 1 : r.range(0, 4); for (int k = 0; k < c; k++) P.rq.push_back({d.first, r.chance(60) ? std::max(0, n + r.range(-1, 1)) : r.chance(10) ? nf + r.below(5) : r.below(nf)}); }
                else P.rq.push_back({d.first, n});
            }
            if (r.chance(30)) std::reverse(P.rq.begin(), P.rq.end());
            if (r.chance(errPct)) { P.fail = r.range(1, 2); P.failTimes = r.chance(50) ? 1 : 1000000; }
            P.direct = r.chance(4);
            P.pass = !P.rq.empty() && r.chance(15);
            P.early = r.chance(20);
            if (side && i > 0 && r.chance(25)) P.inner = r.below(nodes[0]->nf);
        }
        N->node = vs->createVideoFilter2(fmt("n%d", i).c_str(), &N->vi, gf, gfree, N->mode, D.data(), (int)D.size(), N.get(), core);
        int cc = prof == "cache" ? r.range(0, 3) : r.chance(60) ? 0 : r.range(1, 3);
        int may = 1;
        if (cc == 0) { vs->setCacheMode(N->node, cmForceDisable); may = 0; }
        else if (cc == 1) { vs->setCacheMode(N->node, cmForceEnable); vs->setCacheOptions(N->node, 1, r.range(0, 4), r.range(0, 4)); }
        else if (cc == 2) vs->setCacheMode(N->node, cmForceEnable);
        N->cacheCfg = may;
        js += fmt("%s{\"m\":%d,\"c\":%d,\"nf\":%d}", i ? "," : "", N->mode, may, N->nf);
        nodes.push_back(std::move(N));
    }
    // nodes nobody depends on are outputs; sometimes others are requested directly as well
    for (auto &N : nodes) N->out = true;
    for (auto &N : nodes) for (auto &d : N->deps) nodes[d.first]->out = false;
    std::vector<int> outs; for (auto &N : nodes) if ((N->out && !(side && N->id == 0)) || r.chance(10)) outs.push_back(N->id);
    emit(fmt("{\"op\":\"reset\",\"nodes\":[%s],\"th\":%d}", js.c_str(), th));
    perturb_seed = sseed; perturb_level = r.chance(30) ? 0 : r.chance(50) ? 60 : 250;

    int nclients = r.range(1, 3);
    int perClient = prof == "flush" ? 100000 : r.range(4, mem ? 60 : 30);
    auto t0 = std::chrono::steady_clock::now();
    bool badOk = r.chance(40);
    std::vector<std::thread> cl;
    for (int k = 0; k < nclients; k++) cl.emplace_back([&, k] {
        Rng q(sseed + 17 * k + 1);
        int win = prof == "flush" ? 12 : q.range(1, 16);
        bool seq = q.chance(40); int sn = 0;
        for (int i = 0; i < perClient; i++) {
            if (prof == "flush" && std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(3200)) break;
            int v = outs[q.below((int)outs.size())];
            int n = seq ? (sn++ % nodes[v]->nf) : q.below(nodes[v]->nf);
            if (badOk && q.chance(3)) n = q.chance(50) ? -q.range(1, 3) : nodes[v]->nf + q.below(3);
            if (q.chance(prof == "flush" ? 5 : 25)) doSync(v, n);
            else {
                { std::unique_lock<std::mutex> l(idm); idcv.wait(l, [&] { return pending.load() < win * nclients; }); }
                issueAsync(v, n, q.chance(10) ? 2 : 0);
            }
            if (q.chance(5)) nap(q.below(300));
        }
    });
    std::atomic<bool> stop{false};
    std::thread ctl([&] {
        Rng q(sseed + 5);
        while (!stop) {
            nap(q.range(100, 2000));
            if (stop) break;
            switch (q.below(8)) {
            case 0: vs->clearCoreCaches(core); break;
            case 1: vs->clearNodeCache(nodes[q.below((int)nodes.size())]->node); break;
            case 2: if (prof == "small" || prof == "mem") vs->setThreadCount(q.range(1, 6), core); break;
            case 3: if (prof == "mem") vs->setMaxCacheSize((int64_t)(1 << 17) << q.below(6), core); break;
            case 4: { VSCoreInfo ci; vs->getCoreInfo(core, &ci); break; }
            default: break;
            }
        }
    });
    for (auto &t : cl) t.join();
    { std::unique_lock<std::mutex> l(idm); idcv.wait(l, [] { return pending.load() == 0; }); }
    stop = true;
    ctl.join();
    emit("{\"op\":\"idle\"}");
    perturb_level = 0;
    for (auto f : held) vs->freeFrame(f);
    held.clear();
    // drop the node references in random order; instances live until their consumers are gone
    std::vector<int> ord; for (int i = 0; i < nn; i++) ord.push_back(i);
    for (int i = nn - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
    std::set<int> dropped; int earlyFree = 0;
    for (int i : ord) {
        vs->freeNode(nodes[i]->node);
        dropped.insert(i);
        // an instance may be freed only when neither we nor a live consumer refers to it
        for (auto &N : nodes) {
            bool ref = !dropped.count(N->id);
            for (auto &M : nodes) if (!M->freed) for (auto &d : M->deps) if (d.first == N->id) ref = true;
            if (ref && N->freed) earlyFree++;
            if (!ref && !N->freed) earlyFree += 1000;
        }
    }
    VSCoreInfo ci; vs->getCoreInfo(core, &ci);
    // a pool thread may still hold the last frame it delivered for a moment
    for (int i = 0; i < 3000 && ci.usedFramebufferSize > 0; i++) { nap(1000); vs->getCoreInfo(core, &ci); }
    int64_t memLeft = ci.usedFramebufferSize;
    int w = warnings;
    vs->freeCore(core);
    std::string fr; int bad = 0;
    for (auto &N : nodes) { fr += fmt("%s%d", fr.empty() ? "" : ",", (int)N->freed); if (N->freed != 1) bad++; }
    (void)lh;
    emit(fmt("{\"op\":\"fin\",\"frees\":[%s],\"order\":%d,\"mem\":%d,\"warn\":%d}", fr.c_str(), earlyFree, (int)std::min<int64_t>(memLeft, 2000000000), w + (warnings - w)));
}

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    Rng r(atoi(argv[1]));
    int sessions = atoi(argv[2]);
    open_trace(argv[4]);
    watchdog(25);
    for (int s = 0; s < sessions; s++) session(r, argv[3], s);
    close_trace();
    fprintf(stderr, "flushes %d\n", (int)flushes);
    _exit(0);
}
