#!/usr/bin/env python3
"""Random histories of environments, of a policy of its own and of the objects made in them.
envs_run.py SEED STEPS THREADS MODE TRACE   MODE: local | global (policy, one step at a time) | free (thread local policy, threads with environments of their own)"""
import faulthandler, gc, io, json, logging, random, sys, threading, warnings
import vapoursynth as vs

SEED, STEPS, THREADS, MODE, TRACE = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
faulthandler.enable(sys.__stderr__)
faulthandler.dump_traceback_later(140, exit=True)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.stderr = io.StringIO()
R0 = random.Random(SEED)
OUT = open(TRACE, "w")
EMIT, TURN = threading.Lock(), threading.RLock()
if MODE == "free": TURN = __import__("contextlib").nullcontext()
tls = threading.local()
CHECKING = R0.random() < .5      # whether get_current_environment() of the policy looks at is_alive itself


class Boom(Exception): pass


def emit(**k):
    with EMIT:
        OUT.write(json.dumps(k) + "\n"); OUT.flush()


class Policy(vs.EnvironmentPolicy):
    def __init__(self, local): self.cur, self.local, self.loc, self.cleared = None, local, threading.local(), 0
    def on_policy_registered(self, api): self.api = api
    def on_policy_cleared(self): self.cleared += 1
    def raw(self): return getattr(self.loc, "e", None) if self.local else self.cur
    def get_current_environment(self):
        e = self.raw()
        return e if e is None or not CHECKING or self.is_alive(e) else None
    def set_environment(self, e):
        old = self.get_current_environment()
        if e is not None and not self.is_alive(e): e = None
        if self.local: self.loc.e = e
        else: self.cur = e
        return old


class Env:
    pass


class Pool:      # what a thread works on: everything, or its own things when the threads run freely
    def __init__(self): self.envs, self.objs, self.locals = [], {}, []


policy = None
num = {"env": 0, "obj": 0, "core": 0, "cb": 0, "log": 0}
byid = {}      # id(EnvironmentData) -> number, the data are kept
keep = []
cores = {}      # id(core) -> number
stale = []      # APIs of former policies


def fresh(what):
    with EMIT:
        num[what] += 1
        return num[what]


def cur():
    e = policy.raw()
    return byid[id(e)] if e is not None and policy.is_alive(e) else 0


DEBUG = "ENVS_DEBUG" in __import__("os").environ


def ev(code, **k):
    if DEBUG: sys.__stderr__.write("eval %s\n" % code)
    return eval(code, k)


def name(e): return type(e).__name__


USE = {
    "core": "x.num_threads|x.max_cache_size|x.used_cache_size|x.flags|x.std|list(x.plugins())|x.query_video_format(1,0,8)|x.get_video_format(vs.GRAY8)|x.create_video_frame(vs.GRAY8,8,8)|"
            "x.clear_cache()|x.core_version|x.api_version|dir(x)|repr(x)|str(x)|x.timings.enabled|x.timings.freed_nodes|setattr(x,'num_threads',2)|setattr(x,'max_cache_size',100)|"
            "x.add_log_handler(lambda a,b:None)|x.log_message(vs.MESSAGE_TYPE_DEBUG,'x')",
    "plugin": "x.BlankClip|x.BlankClip()|list(x.functions())|x.version|x.plugin_path|dir(x)|repr(x)",
    "func": "x()|x(width=8)",
    "node": "x.get_frame(0)|x.get_frame_async(0).result()|next(x.frames())|x.clear_cache()|x.node_name|x.mode|x.dependencies|x[0]|x[1:3]|x+x|x*2|2*x|x.std.Trim(first=1)|x.std|dir(x)|"
            "x==x.std|hash(x)|x.output(io.BytesIO())|vs.core.std.Trim(x,first=1)|vs.core.std.Splice([x,x])|vs.core.std.ClipToProp(x,x)|list(x.frames(close=True))",
    "anode": "x.get_frame(0)|x.get_frame_async(0).result()|next(x.frames())|x.clear_cache()|x[0]|x[0:10]|x+x|x*2|x.std.AudioTrim(first=1)|dir(x)|x.output(io.BytesIO())|vs.core.std.AudioTrim(x,first=1)",
    "frame": "x.props['x']|x.props.keys()|x[0]|x.copy()|x.get_read_ptr(0)|x.get_stride(0)|list(x.readchunks())|len(x)|x.props|x.props.get('x')|'x' in x.props|len(x.props)|list(x)",
    "wframe": "x.props['x']|x[0]|x.copy()|x.get_write_ptr(0)|len(x)|setattr(x.props,'y',4)|x.props.update(z=3)",
    "aframe": "x[0]|x.copy()|x.props|len(x)|x.get_read_ptr(0)|list(x)",
    "fprops": "x['x']|dict(x)|list(x.keys())|list(x.items())|len(x)|'x' in x|x.get('x')|x.copy()",
    "wprops": "x['x']|dict(x)|len(x)|x.update(k=4)|x.__setitem__('q',3)|x.copy()",
}
USE = {k: v.split("|") for k, v in USE.items()}
MAKE = {      # kind -> [(kind of the source or "", code)]
    "plugin": [("", "vs.core.std"), ("core", "s.std")],
    "func": [("", "vs.core.std.BlankClip"), ("plugin", "s.BlankClip"), ("core", "s.std.BlankClip")],
    "node": [("", "vs.core.std.BlankClip(length=9,width=16,height=8).std.SetFrameProps(x=3)"), ("", "vs.core.core.std.BlankClip(length=9).std.SetFrameProps(x=3)"),
             ("node", "s.std.SetFrameProps(x=4)"), ("node", "s[0:5]"), ("node", "s[::-1]"), ("node", "s*2"), ("node", "s+s"), ("core", "s.std.BlankClip(length=4).std.SetFrameProps(x=3)"),
             ("node", "vs.core.std.SetFrameProps(s,x=5)"), ("func", "s(length=7,width=16,height=8).std.SetFrameProps(x=3)")],
    "anode": [("", "vs.core.std.BlankAudio(length=5000)"), ("anode", "s[0:4000]"), ("anode", "s+s")],
    "frame": [("node", "s.get_frame(0)"), ("node", "s.get_frame_async(1).result()"), ("node", "next(s.frames())"), ("node", "cbframe(s)"), ("node", "s.get_frame(2)")],
    "aframe": [("anode", "s.get_frame(0)"), ("anode", "s.get_frame_async(0).result()")],
    "wframe": [("frame", "s.copy()"), ("wframe", "s.copy()")],
    "fprops": [("frame", "s.props")],
    "wprops": [("wframe", "s.props")],
}


if MODE == "global":      # another thread that uses an environment is seen by all: nothing is left running there
    USE = {k: [c for c in v if not any(w in c for w in ("async", "frames(", "output("))] for k, v in USE.items()}
    MAKE = {k: [c for c in v if not any(w in c[1] for w in ("async", "frames(", "cbframe("))] for k, v in MAKE.items()}


def cbframe(n):
    ev, box = threading.Event(), []
    me = cur()
    def cb(f, e):
        box.extend([f, e, policy.get_current_environment()]); ev.set()
    n.get_frame_async(1, cb)
    ev.wait(60)
    if box[1] is not None: raise box[1]
    emit(e="back", t=tls.t, want=me, got=byid.get(id(box[2]), 0))
    return box[0]


def pick(R, seq): return R.choice(seq) if seq else None


def anyenv(R, P):
    return pick(R, P.envs[-6:])


def getobj(R, P, kind):
    ks = [k for k, (kd, o, c) in P.objs.items() if kd == kind]
    return pick(R, ks[-6:] if R.random() < .7 else ks)


def s_create(R, P, d):
    alive = sum(1 for e in P.envs if policy.is_alive(e.data))
    if alive >= 4: return
    with TURN:
        flags = R.choice([0, 0, 1, 5])
        x = Env(); x.data = policy.api.create_environment(flags); x.n = fresh("env")
        with EMIT: byid[id(x.data)] = x.n; keep.append(x.data)
        x.wrap = policy.api.wrap_environment(x.data)
        x.dying = False
        P.envs.append(x)
        emit(e="create", t=tls.t, env=x.n, flags=flags, cur=cur())


def s_with(R, P, d):
    x = anyenv(R, P)
    if x is None or d >= 4: return
    how = R.choice(["", "", "raise", "return", "break"])
    def body():
        TURN.__enter__()
        held = True
        try:
            for _ in (1, 2):
                with R.choice([x.wrap, x.wrap.copy(), policy.api.wrap_environment(x.data)]).use():
                    emit(e="enter", t=tls.t, env=x.n, cur=cur())
                    TURN.__exit__(None, None, None); held = False
                    run(R, P, d + 1, R.randrange(1, 9))
                    TURN.__enter__(); held = True
                    if how == "raise": raise Boom()
                    if how == "return": return
                    break
        finally:
            if held:
                emit(e="exit", t=tls.t, cur=cur())
                TURN.__exit__(None, None, None)
    try: body()
    except Boom: pass


def callback(R, P, cb, kind, x):
    def f():
        emit(e="cb", t=tls.t, env=x.n, cb=cb, cur=cur())
        if not tls.simple and kind in ("ops", "exc"): run(R, P, 3, R.randrange(3))
        if kind == "again" and not tls.simple: s_destroy(R, P, 3, x)
        if kind == "exc": raise Boom("callback")
        if kind == "exit": raise SystemExit(3)
        if kind == "kbd": raise KeyboardInterrupt()
    return f


def s_register(R, P, d):
    with TURN:
        c = cur()
        x = next((e for e in P.envs if e.n == c), None)
        if c and x is None: return
        if x is not None and R.random() < .25:
            known = [k for k in x.cbs] if hasattr(x, "cbs") else []
            k = pick(R, known) or 0
            try: vs.unregister_on_destroy(x.cbs[k] if k else len); r = "ok"
            except BaseException as ex: r = name(ex)
            if r == "ok": del x.cbs[k]
            emit(e="unreg", t=tls.t, cb=k, r=r, cur=c)
            return
        cb = fresh("cb")
        f = callback(R, P, cb, R.choice(["", "ops", "ops", "exc", "exit", "kbd", "again"]), x or Env())
        try: vs.register_on_destroy(f); r = "ok"
        except BaseException as ex: r = name(ex)
        if r == "ok":
            x.__dict__.setdefault("cbs", {})[cb] = f
        emit(e="reg", t=tls.t, cb=cb, r=r, cur=c)


def s_destroy(R, P, d, x=None):
    if x is None:
        x = anyenv(R, P)
        if x is None or (R.random() < .4 and policy.is_alive(x.data)): return
    with TURN:
        emit(e="destroy", t=tls.t, env=x.n, simple=False)
        x.__dict__.pop("cbs", None)
        try: policy.api.destroy_environment(x.data); r = "ok"
        except BaseException as ex: r = name(ex)
        if R.random() < .3: gc.collect()
        emit(e="gone", t=tls.t, env=x.n, r=r, cur=cur(), alive=bool(x.wrap.alive), known=bool(policy.is_alive(x.data)))


def s_core(R, P, d):
    with TURN:
        try:
            c = R.choice([lambda: vs.core.core, lambda: (vs.get_current_environment(), vs.core.core)[1]])()
            with EMIT: known = id(c) in cores
            if not known:
                n = fresh("core")
                with EMIT: cores[id(c)] = n; keep.append(c)
            o = fresh("obj"); P.objs[o] = ("core", c, cur())
            emit(e="core", t=tls.t, r="ok", core=cores[id(c)], o=o, flags=int(c.flags), cur=cur(), same=c.std is not None)
        except BaseException as ex: emit(e="core", t=tls.t, r=name(ex), cur=cur())


def s_make(R, P, d):
    kind = R.choice(["node", "node", "frame", "frame"] + list(MAKE))
    sk, code = R.choice(MAKE[kind])
    so = 0
    if sk:
        so = getobj(R, P, sk)
        if so is None: return
    with TURN:
        before = cur()
        if so and "vs.core" in code and P.objs[so][2] != before: return      # clips are not handed to other cores
        s = P.objs[so][1] if so else None
        if DEBUG: sys.__stderr__.write("src %d cur %d\n" % (so, before))
        try: x = ev(code, vs=vs, s=s, cbframe=cbframe); r = "ok"
        except BaseException as ex: x, r = None, name(ex)
        o = 0
        if r == "ok": o = fresh("obj"); P.objs[o] = (kind, x, P.objs[so][2] if so else before)
        s = x = None
        emit(e="make", t=tls.t, kind=kind, src=so, r=r, o=o, cur=before, code=code)


def s_use(R, P, d):
    kind = R.choice(list(USE))
    o = getobj(R, P, kind)
    if o is None: return
    x = P.objs[o][1]
    ops = USE[kind] if R.random() < .1 else [R.choice(USE[kind])]
    for code in ops:
        with TURN:
            c = cur()
            if "vs.core" in code and P.objs[o][2] != c: continue
            try: v = ev(code, vs=vs, x=x, io=io); r = "ok"
            except BaseException as ex: r = name(ex)
            v = None
            emit(e="use", t=tls.t, o=o, kind=kind, r=r, code=code, cur=c)


def s_drop(R, P, d):
    if len(P.objs) > 40:
        with TURN:
            for o in R.sample(sorted(P.objs), 12):
                if P.objs[o][0] != "core": del P.objs[o]


def s_close(R, P, d):
    o = getobj(R, P, R.choice(["frame", "wframe", "aframe"]))
    if o is None: return
    with TURN:
        x = P.objs[o][1]
        try: x.close(); r = "ok"
        except BaseException as ex: r = name(ex)
        emit(e="close", t=tls.t, o=o, r=r, closed=x.closed, cur=cur())


def s_out(R, P, d):
    with TURN:
        c = cur()
        what = R.choice(["set", "set", "get", "get", "clear", "all"])
        k = R.randrange(3)
        o = 0
        if what == "set":
            o = getobj(R, P, R.choice(["node", "anode"]))
            if o is None: return
        got = []
        try:
            if what == "set": P.objs[o][1].set_output(k)
            elif what == "clear": vs.clear_output(k)
            elif what == "all": vs.clear_outputs()
            else:
                outs = vs.get_outputs()
                for i in sorted(outs):
                    v = outs[i]
                    if vs.get_output(i) is not v: raise Boom()
                    v = v.clip if isinstance(v, tuple) else v
                    got.append([i, next((a for a, (kd, b, c) in list(P.objs.items()) if b is v), -1)])
            r = "ok"
        except BaseException as ex: r = name(ex)
        v = outs = None
        emit(e="out", t=tls.t, what=what, i=k, o=o, got=got, r=r, cur=c)


def s_local(R, P, d):
    with TURN:
        c = cur()
        if not P.locals or (len(P.locals) < 3 and R.random() < .1): P.locals.append((fresh("obj"), vs.Local()))
        ln, L = R.choice(P.locals)
        key = R.choice("ab")
        what = R.choice(["set", "get", "get", "del"])
        v = R.randrange(1000); got = 0
        try:
            if what == "set": setattr(L, key, v)
            elif what == "get": got = getattr(L, key)
            else: delattr(L, key)
            r = "ok"
        except BaseException as ex: r = "none" if isinstance(ex, (AttributeError, KeyError)) else name(ex)
        emit(e="local", t=tls.t, what=what, k="%d%s" % (ln, key), v=v, got=got, r=r, cur=c)


def s_log(R, P, d):
    with TURN:
        if R.random() < .5:
            x = anyenv(R, P)
            if x is None: return
            lg = fresh("log")
            def f(level, msg): tls.got.append([lg, msg])
            try: policy.api.set_logger(x.data, f); r = "ok"
            except BaseException as ex: r = name(ex)
            emit(e="logger", t=tls.t, env=x.n, lg=lg, r=r)
        else:
            tls.got = []
            c = cur()
            try: vs.core.log_message(vs.MESSAGE_TYPE_WARNING, "m%d" % c); r = "ok"
            except BaseException as ex: r = name(ex)
            emit(e="log", t=tls.t, got=[g[0] for g in tls.got if g[1] == "m%d" % c], r=r, cur=c)


def s_eval(R, P, d):
    """a function runs in the environment it was handed over in"""
    c = cur()
    o = getobj(R, P, "node")
    if o is None or not c or P.objs[o][2] != c: return
    with TURN:
        c = cur()
        seen = []
        ref = P.objs[o][1]
        def fe(n, f=None):
            e = policy.get_current_environment()
            seen.append(byid.get(id(e), 0))
            if f is not None: return f
            return ref
        try:
            n = R.choice([lambda: ref.std.FrameEval(fe), lambda: ref.std.ModifyFrame(ref, fe), lambda: vs.core.std.FrameEval(ref if P.objs[o][2] == c else vs.core.std.BlankClip(), fe)])()
            x = anyenv(R, P)
            if R.random() < .5: n.get_frame(0).close()
            elif R.random() < .5 and policy.is_alive(x.data):
                with x.wrap.use(): n.get_frame(1).close()
            elif MODE == "global": n.get_frame(2).close()
            else: n.get_frame_async(2).result().close()
            r = "ok"
        except BaseException as ex: r = name(ex)
        n = None
        emit(e="eval", t=tls.t, o=o, r=r, seen=seen, cur=c, after=cur())


def s_stale(R, P, d):
    """what only the holder of the policy may do"""
    with TURN:
        a = pick(R, stale)
        x = anyenv(R, P)
        ops = [("second", lambda: vs.register_policy(Policy(True))), ("bogus", lambda: policy.api.wrap_environment(5)), ("bogus", lambda: policy.api.wrap_environment(None)),
               ("data", lambda: vs.EnvironmentData()), ("api", lambda: vs.EnvironmentPolicyAPI()), ("env", lambda: vs.Environment()), ("single", lambda: vs._try_enable_introspection(0))]
        if a is not None and x is not None:
            ops += [("create", lambda: a.create_environment()), ("destroy", lambda: a.destroy_environment(x.data)), ("wrap", lambda: a.wrap_environment(x.data)),
                    ("unregister", lambda: a.unregister_policy()), ("ptr", lambda: a.get_core_ptr(x.data))] * 2
        what, f = R.choice(ops)
        try:
            v = f(); r = "ok" if v is not False else "refused"
        except BaseException as ex: r = name(ex)
        v = None
        emit(e="stale", t=tls.t, what=what, r=r, cur=cur())


def s_gone(R, P, d):
    """what is known of environments"""
    x = anyenv(R, P)
    if x is None: return
    with TURN:
        emit(e="about", t=tls.t, env=x.n, alive=bool(x.wrap.alive), active=bool(x.wrap.active), eq=x.wrap == x.wrap.copy(), known=bool(policy.is_alive(x.data)), cur=cur(), single=bool(x.wrap.single))


STEP = [(s_create, 6), (s_with, 14), (s_register, 7), (s_destroy, 5), (s_core, 6), (s_make, 26), (s_use, 30), (s_drop, 2), (s_close, 1), (s_out, 12), (s_local, 6), (s_log, 4), (s_eval, 3), (s_stale, 3), (s_gone, 3)]


def run(R, P, d, n):
    for _ in range(n):
        if tls.left <= 0: return
        tls.left -= 1
        f = R.choices([s[0] for s in STEP], [s[1] for s in STEP])[0]
        if f is s_with: f(R, P, d)
        else:
            with TURN: f(R, P, d)


shared = Pool()


failed = []


def thread(t, steps):
    tls.t, tls.left, tls.got, tls.simple = t, steps, [], False
    P = Pool() if MODE == "free" else shared
    R = random.Random(SEED * 100 + t + 7 * num["env"])
    try:
        while tls.left > 0: run(R, P, 0, 20)
        if MODE == "free":
            for x in P.envs:
                if policy.is_alive(x.data): s_destroy(R, P, 0, x)
    except BaseException:
        import traceback
        failed.append(traceback.format_exc())


tls.t, tls.left, tls.got, tls.simple = 0, 0, [], True
emit(e="start")
rounds = 3
for rnd in range(rounds):
    policy = Policy(MODE != "global")
    vs.register_policy(policy)
    emit(e="policy", local=MODE != "global", checks=CHECKING)
    ths = [threading.Thread(target=thread, args=(t + 1, STEPS // rounds // THREADS)) for t in range(THREADS)]
    for t in ths: t.start()
    for t in ths: t.join()
    if failed: break
    emit(e="unregister", t=0)
    api = policy.api
    try: api.unregister_policy(); r = "ok"
    except BaseException as ex: r = name(ex)
    emit(e="unregistered", r=r, has=vs.has_policy(), cleared=policy.cleared, stale=policy.is_alive(keep[0]) if False else False)
    stale.append(api)
    gc.collect()
OUT.close()
if failed:
    sys.__stderr__.write(failed[0]); sys.exit(3)
faulthandler.cancel_dump_traceback_later()
