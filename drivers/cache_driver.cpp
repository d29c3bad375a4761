// Sequential requests on graphs of single-input filters; logs which filters ran for each request.
// usage: cache_driver SEED SESSIONS OPS TRACE
#include "vsdrv.h"
#include <memory>
struct Node { int id; int dep; int pat; int nf; bool linear; std::vector<int> plan, extra; VSNode *node; bool live = true; int kids = 0; VSVideoInfo vi; };
static std::vector<std::unique_ptr<Node>> nodes;
static VSCore *core; static int uc = 0; static std::string runs;
static VSFrame *make(Node *N, int u, VSCore *c) {
    VSFrame *f = vs->newVideoFrame(&N->vi.format, N->vi.width, N->vi.height, nullptr, c);
    int32_t px[2] = {u, ~u}; memcpy(vs->getWritePtr(f, 0), px, 8);
    vs->mapSetInt(vs->getFramePropertiesRW(f), "u", u, maReplace);
    return f;
}
static int frameU(const VSFrame *f) {
    if (!f) return 0;
    int e; int64_t u = vs->mapGetInt(vs->getFramePropertiesRO(f), "u", 0, &e);
    int32_t px[2]; memcpy(px, vs->getReadPtr(f, 0), 8);
    if (e || px[0] != (int)u || px[1] != ~(int)u) return -1;
    return (int)u;
}
static const VSFrame *VS_CC gf(int n, int ar, void *inst, void **, VSFrameContext *fc, VSCore *c, const VSAPI *) {
    Node *N = (Node *)inst;
    if (ar == arInitial && N->dep >= 0) { vs->requestFrameFilter(N->plan[n], nodes[N->dep]->node, fc); return nullptr; }
    if (ar == arError) return nullptr;
    int in = 0;
    if (N->dep >= 0) { const VSFrame *f = vs->getFrameFilter(N->plan[n], nodes[N->dep]->node, fc); in = frameU(f); vs->freeFrame(f); }
    std::string ex;
    if (N->linear) for (int k = 1; k <= N->extra[n] && n + k < N->nf; k++) {
        int u = ++uc; VSFrame *f = make(N, u, c); vs->cacheFrame(f, n + k, fc); vs->freeFrame(f);
        ex += fmt("%s[%d,%d]", ex.empty() ? "" : ",", n + k, u);
    }
    int u = ++uc;
    runs += fmt("%s{\"v\":%d,\"n\":%d,\"u\":%d,\"in\":%d,\"ex\":[%s]}", runs.empty() ? "" : ",", N->id, n, u, in, ex.c_str());
    return make(N, u, c);
}
static void VS_CC fr(void *, VSCore *, const VSAPI *) {}
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    Rng r(atoi(argv[1])); int sessions = atoi(argv[2]), ops = atoi(argv[3]);
    open_trace(argv[4]); watchdog(25);
    for (int s = 0; s < sessions; s++) {
        auto t0 = std::chrono::steady_clock::now();
        core = vs->createCore(ccfDisableAutoLoading);
        int th = vs->setThreadCount(r.chance(70) ? 1 : r.range(2, 4), core);
        nodes.clear(); uc = 0;
        emit(fmt("{\"op\":\"reset\",\"th\":%d}", th));
        auto add = [&] {
            auto N = std::make_unique<Node>();
            N->id = (int)nodes.size(); N->nf = r.range(1, 14); N->dep = -1; N->pat = 0;
            std::vector<int> cand; for (auto &x : nodes) if (x->live && x->id + 1 < 7) cand.push_back(x->id);
            VSFilterDependency d;
            if (!cand.empty() && r.chance(75)) {
                N->dep = r.pick(cand); Node *D = nodes[N->dep].get();
                if (D->nf >= N->nf) N->pat = r.pick(std::vector<int>{rpGeneral, rpGeneral, rpNoFrameReuse, rpStrictSpatial});
                else N->pat = r.pick(std::vector<int>{rpGeneral, rpFrameReuseLastOnly, rpFrameReuseLastOnly});
                d = {D->node, N->pat}; D->kids++;
            }
            for (int n = 0; n < N->nf; n++) { N->plan.push_back(N->dep < 0 ? 0 : N->pat == rpGeneral ? (r.chance(60) ? std::max(0, n + r.range(-1, 1)) : r.below(nodes[N->dep]->nf)) : n); N->extra.push_back(r.below(4)); }
            N->linear = N->dep < 0 && r.chance(20);
            vs->queryVideoFormat(&N->vi.format, cfGray, stInteger, 8, 0, 0, core);
            N->vi.width = N->vi.height = 8; N->vi.fpsNum = 24; N->vi.fpsDen = 1; N->vi.numFrames = N->nf;
            N->node = vs->createVideoFilter2("n", &N->vi, gf, fr, N->linear ? fmUnordered : fmParallel, &d, N->dep >= 0 ? 1 : 0, N.get(), core);
            int lin = N->linear ? vs->setLinearFilter(N->node) : -1;
            emit(fmt("{\"op\":\"node\",\"v\":%d,\"dep\":%d,\"pat\":%d,\"nf\":%d,\"lin\":%d,\"plan\":%s}", N->id, N->dep, N->pat, N->nf, lin, jlist(N->plan).c_str()));
            nodes.push_back(std::move(N));
        };
        add(); add();
        if (r.chance(80)) add();
        std::vector<int> lastq{0, 0};
        auto liveNode = [&]() -> Node * { std::vector<int> c; for (auto &x : nodes) if (x->live) c.push_back(x->id); return c.empty() ? nullptr : nodes[r.pick(c)].get(); };
        for (int o = 0; o < ops; o++) {
            Node *N = liveNode();
            if (!N) { add(); continue; }
            int k = r.below(100);
            if (k < 3 && nodes.size() < 9) add();
            else if (k < 5 && N->kids == 0) { vs->freeNode(N->node); N->live = false; if (N->dep >= 0) nodes[N->dep]->kids--; emit(fmt("{\"op\":\"free\",\"v\":%d}", N->id)); }
            else if (k < 11) { int m = r.chance(60) ? 1 : r.range(-1, 1); vs->setCacheMode(N->node, m); emit(fmt("{\"op\":\"mode\",\"v\":%d,\"m\":%d}", N->id, m));
                 if (m == 1 && r.chance(75)) { int mx = r.range(0, 6), h = r.range(-1, 4); vs->setCacheOptions(N->node, 1, mx, h); emit(fmt("{\"op\":\"opts\",\"v\":%d,\"f\":1,\"mx\":%d,\"h\":%d}", N->id, mx, h)); } }
            else if (k < 16) { int f = r.chance(50) ? 1 : r.range(-1, 1), mx = r.chance(20) ? -r.range(1, 3) : r.range(0, 6), h = r.chance(40) ? -1 : r.range(0, 4);
                 vs->setCacheOptions(N->node, f, mx, h); emit(fmt("{\"op\":\"opts\",\"v\":%d,\"f\":%d,\"mx\":%d,\"h\":%d}", N->id, f, mx, h)); }
            else if (k < 19) { vs->clearNodeCache(N->node); emit(fmt("{\"op\":\"clr\",\"v\":%d}", N->id)); }
            else if (k < 20) { vs->clearCoreCaches(core); emit("{\"op\":\"clrall\"}"); }
            else {
                int n = r.below(N->nf);
                if (r.chance(25) && nodes[lastq[0]]->live) { N = nodes[lastq[0]].get(); n = lastq[1]; }
                lastq = {N->id, n};
                runs.clear();
                const VSFrame *f = vs->getFrame(n, N->node, nullptr, 0);
                emit(fmt("{\"op\":\"get\",\"v\":%d,\"n\":%d,\"u\":%d,\"ms\":%d,\"runs\":[%s]}", N->id, n, frameU(f), (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(), runs.c_str()));
                if (f) vs->freeFrame(f);
            }
        }
        for (int i = (int)nodes.size() - 1; i >= 0; i--) if (nodes[i]->live) vs->freeNode(nodes[i]->node);
        vs->freeCore(core);
    }
    close_trace(); _exit(0);
}
