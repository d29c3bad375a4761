#!/usr/bin/env python3
"""Reads clips through the Python module (frames, output, get_frame, slices, + and *) and records what came out.
iter_run.py PLUGIN SEED CASES TRACE"""
import faulthandler, gc, json, os, random, sys, tempfile, time, threading, traceback, logging
import vapoursynth as vs

PLUGIN, SEED, CASES, TRACE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
faulthandler.dump_traceback_later(100, exit=True)
logging.disable(logging.CRITICAL)
R = random.Random(SEED)
core = vs.core.core
core.std.LoadPlugin(PLUGIN)
TMP = tempfile.mkdtemp(prefix="iter", dir=os.path.dirname(os.path.abspath(TRACE)))
OUT = open(TRACE, "w")
HUGE = {2000000000: 10 ** 30, -2000000000: -10 ** 30}
uid = 0


def emit(**k):
    OUT.write(json.dumps(k) + "\n"); OUT.flush()


def logfile():
    global uid
    uid += 1
    return os.path.join(TMP, "l%d" % uid)


def readlog(p):
    out = []
    with open(p) as f:
        for l in f:
            d = json.loads(l)
            for k in ("s", "d", "f"):
                if k in d: out.append([k, d[k]])
    return out


def fid(f): return (f["cf"] << 28) | (f["st"] << 24) | (f["bits"] << 16) | (f["sw"] << 8) | f["sh"]


def pick_format():
    cf = R.choice([1, 2, 3, 3])
    st = 1 if R.random() < .2 else 0
    bits = R.choice([16, 32]) if st else R.choice([8, 8, 8, 9, 10, 12, 14, 16, 16, 17, 24, 32])
    sw, sh = R.choice([(0, 0), (1, 1), (1, 1), (1, 0), (0, 1), (2, 2), (2, 0), (0, 2), (2, 1)]) if cf == 3 else (0, 0)
    return dict(cf=cf, st=st, bits=bits, sw=sw, sh=sh, bps=1 if bits <= 8 else 2 if bits <= 16 else 4, planes=1 if cf == 1 else 3)


def errname(e):
    t = type(e).__name__
    return [t, str(e) if "planned failure" in str(e) else ""]


def subset(n, p): return sorted(k for k in range(n) if R.random() < p)


def delays():
    return R.choice([0, 0, 200, 1000, 1000, -3000, 4000])


class Boom(Exception): pass


def source(kind, length, fail, **extra):
    log = logfile()
    a = dict(log=log, length=length, delay=delays(), seed=R.randrange(200), **extra)
    if fail: a["fail"] = fail
    if kind == "video":
        a.setdefault("format", int(vs.GRAY8)); a.setdefault("width", 2); a.setdefault("height", 2)
        return core.vppipe.Video(**a), log, a
    a.setdefault("bits", 16)
    return core.vppipe.Audio(**a), log, a


def frame_id(f, seed):
    return (f[0][0, 0] - seed) * 173 % 256 if isinstance(f, vs.VideoFrame) else aframe_id(f, seed)     # 173 = 1/37


def aframe_id(f, seed):     # first sample q = n * 3072: q * 7 + q // 256 * 13 = n * 12 * 13 mod 256 -> use the second byte too
    v = f[0][0]
    for n in range(200):
        q = n * 3072
        if v == ((q * 7 + q // 256 * 13 + seed) % 256) | (((q * 7 + q // 256 * 13 + 71 + seed) % 256) << 8):
            return n
    return -1


def optarg(): return R.choice([None, None, 0, -1, 1, 1, 2, 3, 4, 7, 20])


def settle():
    gc.collect()


def case_iter():
    kind = R.choice(["video", "video", "video", "audio"])
    n = R.choice([1, 2, 3, 5, 8, 13, 20, 40]) if kind == "video" else R.choice([1, 2, 5, 9])
    fail = subset(n, R.choice([0, 0, 0, .05, .2]))
    threads = R.choice([1, 2, 3, 4, 8])
    core.num_threads = threads
    clip, log, a = source(kind, n if kind == "video" else n * 3072 - R.randrange(3072), fail)
    pf, bl, close = optarg(), optarg(), R.random() < .4
    kw = {}
    if pf is not None or R.random() < .3: kw["prefetch"] = pf
    if bl is not None or R.random() < .3: kw["backlog"] = bl
    if close or R.random() < .3: kw["close"] = close
    take = R.choice([-1, -1, -1, 0, 1, 2, n // 2, n - 1, n])
    how = R.choice(["close", "close", "throw", "drop"])
    got, frames, seen, err = [], [], [], ["", ""]
    slow = R.random() < .3
    it = clip.frames(**kw)
    try:
        while take < 0 or len(got) < take:
            try: f = next(it)
            except StopIteration: break
            seen.append(all(x.closed == close for x in frames))
            seen.append(not f.closed)
            got.append(frame_id(f, a["seed"])); frames.append(f)
            if slow: time.sleep(R.random() * .003)
        else:
            if how == "throw":
                try: it.throw(Boom())
                except Boom: pass
            elif how == "close": it.close()
    except BaseException as e: err = errname(e); e = None
    f = None
    over = err[0] != '' or take < 0 or len(got) < take or how in ('close', 'throw')
    it = None
    closed = all(x.closed == close for x in (frames if over else frames[:-1]))
    l1 = readlog(log)
    time.sleep(R.choice([0, 0, .001, .004]))
    l2 = readlog(log)
    frames = None
    clip_used = None
    again = None
    if R.random() < .3:      # the clip still works
        i = R.randrange(n)
        try:
            g = clip.get_frame(i); again = [i, frame_id(g, a["seed"]), ["", ""]]; g.close(); g = None
        except vs.Error as e: again = [i, -1, errname(e)]
    settle()
    used = core.used_cache_size
    emit(e="iter", len=n, fail=fail, threads=threads, prefetch=[] if pf is None else [pf], backlog=[] if bl is None else [bl], close=close, take=take, how=how,
         got=got, seen=all(seen), closed=closed, err=err, over=over, log=l1, late=len(l2) - len(l1), used=used,
         again=[] if again is None else [again])


class Sink:
    def __init__(self, limit, flush):
        self.data, self.n, self.limit, self.flushed = bytearray(), 0, limit, 0
        if flush: self.flush = self._flush
    def write(self, b):
        self.n += 1
        if self.n > self.limit: raise Boom("full")
        self.data += bytes(b)
    def _flush(self): self.flushed += 1


def case_output():
    kind = R.choice(["video", "video", "audio"])
    threads = R.choice([1, 2, 4]); core.num_threads = threads
    prog = R.choice(["", "", "log", "boom"])
    progress = []
    def pcb(i, t):
        progress.append([i, t])
        if prog == "boom" and i == 2: raise Boom("progress")
    limit = R.choice([10 ** 6] * 4 + [0, 1, 3, 5])
    flush = R.random() < .7
    sink = Sink(limit, flush)
    pf, bl = R.choice([0, 0, 1, 2, 5, -3]), R.choice([-1, -1, 0, 1, 4, 9])
    kw = dict(prefetch=pf, backlog=bl)
    if prog: kw["progress_update"] = pcb
    alpha = []
    if kind == "video":
        f = pick_format()
        n = R.choice([1, 2, 3, 5, 8])
        w, h = R.randrange(1, 8) << f["sw"], R.randrange(1, 5) << f["sh"]
        fail = subset(n, R.choice([0, 0, 0, .15]))
        hdr = "y4m" if R.random() < .4 and not (f["st"] == 1) else ""
        alpha = R.random() < .25
        rate = R.choice([(24, 1), (30000, 1001), (25, 1), (0, 0)])
        clip, log, a = source("video", n, fail, format=fid(f), width=w, height=h, fpsnum=rate[0], fpsden=rate[1])
        if alpha:
            af = dict(cf=1, st=f["st"], bits=f["bits"], sw=0, sh=0) if R.random() < .7 else pick_format()
            aw, ah = (w, h) if R.random() < .6 else (R.randrange(1, 40) << af["sw"], R.randrange(1, 9) << af["sh"])
            af = dict(af, bps=1 if af["bits"] <= 8 else 2 if af["bits"] <= 16 else 4, planes=1 if af["cf"] == 1 else 3)
            aclip, _, aa = source("video", n, [], format=fid(af), width=aw, height=ah, fpsnum=rate[0], fpsden=rate[1])
            clip = core.std.ClipToProp(clip, aclip, prop="_Alpha")
            alpha = [dict(fmt=af, w=aw, h=ah, seed=aa["seed"])]
        else: alpha = []
        # fps as the clip states it
        o = dict(kind="video", fmt=f, w=w, h=h, len=n, fps=[clip.fps_num, clip.fps_den])
        if hdr: kw["y4m"] = True
    else:
        st = 1 if R.random() < .2 else 0
        bits = 32 if st else R.choice([16, 16, 17, 20, 24, 25, 32])
        mask = R.choice([3, 4, 0x3f, 0x107, 1])
        n = R.choice([1, 5, 1000, 3072, 3073, 7000])
        nf = (n + 3071) // 3072
        fail = subset(nf, R.choice([0, 0, .2]))
        clip, log, a = source("audio", n, fail, bits=bits, sample=st, layout=mask, rate=R.choice([44100, 48000, 8000]))
        hdr = R.choice(["", "wav", "w64", "both"] if R.random() < .5 else [""])
        if hdr == "both": kw.update(wav=True, w64=True)
        elif hdr: kw[hdr] = True
        fail_ = fail
        o = dict(kind="audio", fmt=dict(st=st, bits=bits, ch=clip.num_channels, mask=mask, bps=2 if bits <= 16 else 4), len=n, rate=clip.sample_rate)
    err = ["", ""]
    try: clip.output(sink, **kw)
    except BaseException as e: err = errname(e); e = None
    l1 = readlog(log)
    time.sleep(R.choice([0, .001]))
    l2 = readlog(log)
    data = bytes(sink.data)
    o["seed"] = a["seed"]
    head = ""
    if hdr == "y4m" and kind == "video":
        i = data.find(b"\n") + 1
        head, data = data[:i].decode("latin1"), data[i:]
    clip = aclip = None
    settle()
    if kind == "audio" and len(data) > 4000 + 100:      # keep the head and single pieces of long streams
        step = max(1, len(data) // 3000)
        idx = sorted(set(list(range(0, 300)) + list(range(300, len(data), step)) + list(range(len(data) - 60, len(data)))))
    else: idx = list(range(len(data)))
    emit(e="output", o=o, hdr=hdr, alpha=alpha, fail=fail, threads=threads, prefetch=[pf], backlog=[bl], limit=limit, writes=sink.n, prog=prog, progress=progress,
         head=head, size=len(data), at=idx, bytes=[data[i] for i in idx], err=err, flush=flush, flushed=sink.flushed, late=len(l2) - len(l1), log=l1, used=core.used_cache_size)


def case_get():
    n = R.choice([1, 3, 10, 30])
    fail = subset(n, R.choice([0, .1, .3]))
    core.num_threads = R.choice([1, 2, 4])
    kind = R.choice(["video", "video", "audio"])
    clip, log, a = source(kind, n if kind == "video" else n * 3072 - R.randrange(3072), fail)
    res = []
    pend = []
    for _ in range(R.randrange(1, 25)):
        i = R.choice([R.randrange(n), R.randrange(n), R.randrange(n), -1, n, n + 5, -2 ** 31, 2 ** 31 - 1])
        how = R.choice(["get", "async", "cb", "ctx"])
        ok = [i, how]
        if how in ("get", "ctx"):
            try:
                f = clip.get_frame(i)
                if how == "ctx":
                    with f: v = frame_id(f, a["seed"])
                    if not f.closed: v = -5
                else: v = frame_id(f, a["seed"])
                res.append(ok + [v, ["", ""]])
            except BaseException as e: res.append(ok + [-1, errname(e)]); e = None
            f = None
        elif how == "async":
            pend.append((ok, clip.get_frame_async(i)))
        else:
            ev = threading.Event(); box = []
            def cb(f, e, ev=ev, box=box): box.append((f, e)); ev.set()
            try: clip.get_frame_async(i, cb)
            except BaseException as e: box.append((None, e)); ev.set()
            pend.append((ok, ev, box))
    for p in pend:
        if len(p) == 2:
            try:
                f = p[1].result(60); res.append(p[0] + [frame_id(f, a["seed"]), ["", ""]])
            except BaseException as e: res.append(p[0] + [-1, errname(e)])
        else:
            p[1].wait(60)
            time.sleep(.0002)
            if len(p[2]) != 1: res.append(p[0] + [-9, ["", ""]])
            else:
                f, e = p[2][0]
                if (f is None) == (e is None): res.append(p[0] + [-8, ["", ""]])
                elif e is not None: res.append(p[0] + [-1, errname(e)])
                else: res.append(p[0] + [frame_id(f, a["seed"]), ["", ""]])
        f = e = None
    pend = None
    p = box = cb = None
    settle()
    emit(e="get", len=n, fail=fail, res=res, used=core.used_cache_size)


clips = {}      # handle -> [kind, node, length]
nexth = 0


def ids(kind, c, seeds):
    if kind == "video":
        out = []
        if R.random() < .5:
            for f in c.frames(close=True): out.append([f[0][0, 0], f.props["src"]])
        else:
            for i in range(len(c)):
                with c.get_frame(i) as f: out.append([f[0][0, 0], f.props["src"]])
        return [((v - seeds[s]) * 173 % 256) + 1000 * s for v, s in out]
    out = []
    for f in c.frames():
        out += [x for x in f[0]]
    inv = pow(7, -1, 256)
    return [((int(v) & 255) * inv) % 256 for v in out]      # seed 0


def istr(v): return [] if v is None else [v]


def big(v): return HUGE.get(v, v)


seeds = []


def case_slice(reset):
    global nexth, seeds
    if reset:
        clips.clear(); seeds = []
        emit(e="reset")
        for k in range(3):
            n = R.choice([1, 2, 3, 5, 9, 14])
            kind = "video" if k < 2 else "audio"
            if kind == "video":
                c, _, a = source("video", n, [])
                seeds.append(a["seed"])
                c = core.std.SetFrameProps(c, src=k)
                q = [i + 1000 * k for i in range(n)]
            else:
                c = core.vppipe.Audio(log=logfile(), length=n, bits=16, seed=0, layout=4)
                q = list(range(n))
            nexth += 1; clips[nexth] = [kind, c]
            emit(e="src", h=nexth, kind=kind, q=q)
        return
    h = R.choice(list(clips)); kind, c = clips[h]
    op = R.choice(["index", "slice", "slice", "slice", "mul", "add", "each", "len"])
    rng = len(c)
    v = lambda: R.choice([None, None] + [R.randrange(-rng - 3, rng + 4)] * 6 + [2000000000, -2000000000])
    d = dict(e=op, h=h)
    try:
        res = None
        if op == "index":
            i = R.choice([R.randrange(-rng - 3, rng + 4), R.randrange(-rng, rng), 0, -1, rng, -rng, rng - 1, -rng - 1, 2000000000, -2000000000, "f", "s", "n"])
            d["i"] = [i] if isinstance(i, int) else []
            res = c[{"f": 1.0, "s": "1", "n": None}.get(i, big(i)) if isinstance(i, str) else big(i)]
        elif op == "slice":
            st = R.choice([None, None, 1, -1, -1, 2, 3, -2, -3, 0, rng, -rng, 100, -100, 2000000000 if kind == "audio" else 7])
            s = [v(), v(), st]
            d["s"] = [istr(x) for x in s]
            res = c[slice(*[None if x is None else big(x) for x in s])]
        elif op == "mul":
            k = R.choice([1, 2, 2, 3, 0, -1, -5, True, "x", 1.5]) if rng < 20 else R.choice([1, 2, 0])
            if rng * (k if isinstance(k, int) else 1) > 60: k = 1
            d["k"] = [int(k)] if isinstance(k, int) else []
            res = c * k if R.random() < .6 else k * c
        elif op == "add":
            g = R.choice(list(clips)); k2, c2 = clips[g]
            if rng + len(c2) > 60: g = h; d["e"] = "len"; d["n"] = rng
            elif R.random() < .1: d["g"] = 0; res = c + R.choice([5, None, "x", [c]])
            else: d["g"] = g; res = c + c2
        elif op == "len":
            d["n"] = len(c)
        elif op == "each":
            parts = list(iter(c))
            d["q"] = [x for p in parts for x in ids(kind, p, seeds)]
            d["ones"] = all(len(p) == 1 for p in parts)
        if res is not None:
            nexth += 1
            d["new"] = nexth; d["res"] = ["ok", ids(kind, res, seeds)]; d["num"] = len(res)
            clips[nexth] = [kind, res]
            if len(clips) > 9: del clips[R.choice(sorted(clips))]
    except BaseException as e:
        d["new"] = 0; d["res"] = ["err", type(e).__name__]; d["num"] = 0
        e = None
    emit(**d)


emit(e="start")
for k in range(CASES):
    what = R.choices(["iter", "output", "get"], [5, 4, 2])[0]
    {"iter": case_iter, "output": case_output, "get": case_get}[what]()
case_slice(True)
for k in range(CASES * 4):
    case_slice(R.random() < .03)
clips.clear()
OUT.close()
faulthandler.cancel_dump_traceback_later()
import shutil
shutil.rmtree(TMP)
