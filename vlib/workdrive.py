"""Drives workers and documents, with the background thread stopped at gates
(event handlers, callbacks, transform methods, while lexing) so that changes
and requests arrive there; or running freely."""
import contextlib
import random
import sys
import threading
import time

from . import lang, lexdrive, px, xformdrive
from .core import codes, where
from .lexdrive import failures
from .treedrive import random_changes

DEFAULTS = {"ss": [], "root": [], "m": 0, "cb": 0, "wait": False, "busy": False, "ret": False, "tree": [], "res": [],
            "x": False, "arg": True, "name": ""}


class Sched:
    """Passes control between the main thread and the background thread."""
    def __init__(self, rng, gated):
        self.cond = threading.Condition()
        self.gated = gated
        self.free = not gated
        self.at_gate = 0
        self.go = 0
        self.rng = random.Random(rng.random())
        self.known = set(threading.enumerate())
        self.prob = {}
        self.progress = time.monotonic()
        self.inop = False

    def threads(self):
        return [t for t in threading.enumerate() if t not in self.known]

    def gate(self, name):
        self.progress = time.monotonic()
        if threading.current_thread() in self.known:
            return
        if self.free:
            if not self.gated and self.rng.random() < .2:
                time.sleep(self.rng.random() * .001)
            return
        if self.rng.random() >= self.prob.get(name, .5):
            return
        with self.cond:
            self.at_gate += 1
            self.cond.notify_all()
            while not self.free and not self.go:
                self.cond.wait(1)
            self.go = 0
            self.at_gate -= 1
            self.cond.notify_all()

    def sync(self):
        """Wait until the background thread is at a gate or gone."""
        with self.cond:
            while not self.free and not self.at_gate and self.threads():
                self.cond.wait(.002)

    def step(self):
        """Let the background thread run to the next gate."""
        with self.cond:
            if self.at_gate and not self.free:
                self.go = 1
                self.cond.notify_all()
                while self.go and not self.free:
                    self.cond.wait(1)
        self.sync()

    def set_free(self, free):
        with self.cond:
            self.free = free or not self.gated
            self.cond.notify_all()


held = threading.local()        # number of locks of parce the thread holds


class Tracked:
    """A lock that counts."""
    def __init__(self, lock):
        self.lock = lock

    def acquire(self, *args, **kw):
        r = self.lock.acquire(*args, **kw)
        if r:
            held.n = getattr(held, "n", 0) + 1
        return r

    def release(self):
        self.lock.release()
        held.n = getattr(held, "n", 1) - 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        # what a Condition uses: it releases the lock only while waiting
        return getattr(self.lock, name)


class Locks:
    """Locks made by parce are counted meanwhile."""
    def __enter__(self):
        self.old = old = {n: getattr(threading, n) for n in ("Lock", "RLock", "Condition")}
        ours = lambda: "/parce/" in sys._getframe(2).f_code.co_filename
        threading.Lock = lambda: Tracked(old["Lock"]()) if ours() else old["Lock"]()
        threading.RLock = lambda: Tracked(old["RLock"]()) if ours() else old["RLock"]()
        class Condition(old["Condition"]):
            def __init__(self, lock=None):
                if lock is None and sys._getframe(1).f_code.co_filename.find("/parce/") >= 0:
                    lock = Tracked(old["RLock"]())
                super().__init__(lock)
        threading.Condition = Condition

    def __exit__(self, *exc):
        for n, x in self.old.items():
            setattr(threading, n, x)


def reentrant(cond):
    """The condition, if its lock can be acquired more than once."""
    if isinstance(cond, threading.Condition) and cond.acquire():
        ok = cond.acquire(False)
        if ok:
            cond.release()
        cond.release()
        return cond if ok else None


class Scenario:
    def __init__(self, rng, kind, gated, maxlen, nops, xprob):
        self.rng = rng
        self.kind = kind
        self.bg = kind in ("bworker", "bdocument")
        self.gated = gated
        self.nops = nops
        self.data = lang.Gen(rng, bounded=True, nlex=rng.choice([2, 3, 4])).language()
        self.comp = comp = lang.Compiled(self.data, hook=True)
        self.ids = px.GenIds(comp)
        n = len(self.data["lex"])
        self.roots = [comp.lexicon(i) for i in range(1, n + 1)] + [None, comp.lexicon(1, "a")]
        corp = lang.corpus(self.data, rng)
        self.piece = lambda: rng.choice(corp) if rng.random() < .6 else rng.choice(lang.ALPHA)
        self.first = lang.rich_text(self.data, rng, rng.randint(1, maxlen)) or "a"
        self.log = []
        self.case = {"kind": kind, "gated": gated, "ops": []}
        self.ncb = 0
        self.depth = 0
        self.xprob = xprob
        self.sched = Sched(rng, gated and self.bg)
        self.sched.prob = {k: rng.choice([0, .3, 1]) for k in ("started", "tree_updated", "tree_finished", "xf",
                                                               "transform_finished", "cb", "replace")}
        self.sched.prob["lex"] = rng.choice([0, .05, .2])
        # also stop between lines of code; and let the other thread run there
        self.lines = self.sched.prob["line"] = rng.choice([0, .1, .5, 1]) if gated and self.bg else 0
        # some lines only, or any line
        self.some = rng.choice([0, 4, 10, 25, 50]) if self.lines else 0
        self.salt = rng.randrange(1000)
        self.burst = rng.choice([[0, 0, 1, 1, 1, 2, 3, 6], [0, 0, 0, 0, 0, 0, 1, 2, 8], [0, 0, 0, 0, 0, 0, 1, 5, 12]])
        if self.some:
            self.sched.prob["line"] = 1
        self.pmain = rng.choice([0, .1, .3]) if self.lines else 0
        self.waiters = []
        self.waiting = False
        self.Ms = []
        self.tfs = []
        for _ in range(3):
            M = [rng.choice([0, 1, 1, 1, 2]) for _ in range(n)]
            M[0] = rng.choice([0, 1, 1, 1, 1, 1, 2])
            self.Ms.append(M)
            t = xformdrive.transforms(comp, M, self.body)
            for e in ("started", "updated"):
                t.connect(e, self.xhandler)
            self.tfs.append(t)
        self.pupdate = rng.choice([.4, .4, .15])
        self.pxform = xprob * rng.choice([.3, .3, .7])
        self.m = 0
        self.text = ""

    def rec(self, op, **kw):
        r = dict(DEFAULTS, op=op, **kw)
        self.log.append(r)
        self.sched.progress = time.monotonic()
        return r

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        return self.line if "/parce/" in fn and fn.endswith(("/work.py", "/treebuilder.py", "/transform.py")) else None

    def line(self, frame, event, arg):
        if event == "line" and not getattr(held, "n", 0):
            th = threading.current_thread()
            if th is self.mainthread:
                if self.sched.inop and not self.waiting and self.sched.rng.random() < self.pmain:
                    self.sched.step()
            elif not self.some or (frame.f_lineno * 7919 + self.salt) % 1009 % self.some == 0:
                self.sched.gate("line")
        return self.line

    def pump(self):
        """While the main thread waits, the background thread proceeds."""
        time.sleep(.002)
        while self.waiting:
            self.sched.step()
            time.sleep(.0002)

    def waiter(self, x):
        """Another thread that waits."""
        obj = self.w if self.doc is None else self.doc
        th = threading.Thread(target=lambda: obj.get_transform(True) if x else obj.get_root(True), daemon=True)
        self.sched.known.add(th)
        self.waiters.append(th)
        self.case["ops"].append(["waiter", x])
        th.start()
        th.join(.001)

    # transforms: nested lists
    def body(self, i, items):
        self.sched.gate("xf")
        out = []
        for x in items:
            if x.is_token:
                out.append(("T", codes(x.text), self.ids.action(x.action)))
            elif x.name == "<untransformed>":
                out.append(self.untransformed(x.obj))
            else:
                out.append(x.obj)
        return ("C", i, lang.NONESTR if items.arg is None else codes(items.arg), out)

    def untransformed(self, c):
        return ("U", self.ids.key(c.lexicon)[0],
                [self.untransformed(n) if n.is_context else ("T", codes(n.text), self.ids.action(n.action)) for n in c])

    def flatres(self, r):
        out = []
        def walk(x, d):
            if x[0] == "T":
                out.append([d, "T", x[1], x[2]])
            elif x[0] == "U":
                out.append([d, "U", x[1]])
                for y in x[2]:
                    walk(y, d + 1)
            else:
                out.append([d, "C", x[1], x[2]])
                for y in x[3]:
                    walk(y, d + 1)
        if r is not None:
            walk(r, 0)
        return out

    # ---- operations -------------------------------------------------------
    def update(self, root=False):
        rng = self.rng
        if root:
            r = rng.choice(self.roots)
            self.case["ops"].append(["root", repr(r)])
            self.rec("update", root=self.ids.key(r))
            if self.doc is not None:
                self.doc.set_root_lexicon(r)
            else:
                self.w.update(self.text, r)
            self.rec("made")
            return
        cs = random_changes(rng, self.text, self.piece, self.doc is not None)
        if not cs:
            return
        self.case["ops"].append(["edit", cs])
        self.rec("update", ss=[[{"s": a, "e": b, "t": codes(s)} for a, b, s in cs]])
        if self.doc is not None:
            t = self.text
            for a, b, s in reversed(cs):
                t = t[:a] + s + t[b:]
            self.text = t
            if len(cs) == 1:
                (a, b, s), = cs
                self.doc[a:b] = s
            else:
                with self.doc as d:
                    for a, b, s in reversed(cs):
                        d[a:b] = s
        else:
            (a, b, s), = cs
            self.text = self.text[:a] + s + self.text[b:]
            self.w.update(self.text, False, a, b - a, len(s))
        self.rec("made")

    def set_transformer(self):
        m = self.rng.randint(0, 3)
        self.case["ops"].append(["transformer", m])
        self.rec("xf", m=m)
        self.m = m
        (self.w if self.doc is None else self.doc).set_transformer(self.tfs[m - 1] if m else None)
        self.rec("xmade")

    def callback(self, x):
        self.ncb += 1
        cb, obj = self.ncb, self.w if self.doc is None else self.doc
        def call(arg):
            kw = {}
            if x:
                kw["res"] = self.flatres(obj.get_transform())
            self.rec("cb", cb=cb, x=x, arg=arg is obj, tree=px.flat(self.ids, self.w.builder().root), **kw)
            self.sched.gate("cb")
            self.reenter()
        return cb, call

    def get(self, x, wait, usecb=None):
        obj = self.w if self.doc is None else self.doc
        cb, call = self.callback(x) if (self.rng.random() < .6 if usecb is None else usecb) else (0, None)
        self.case["ops"].append(["transform" if x else "tree", wait, cb])
        busy = False
        if wait:
            if not self.lines:
                self.sched.set_free(True)
            else:
                self.waiting = True
                pump = threading.Thread(target=self.pump, daemon=True)
                self.sched.known.add(pump)
                pump.start()
        if cb:
            self.rec("reg", cb=cb, x=x)     # it may be called before the request returns
        # while its lock is held the worker does not proceed, so this is known
        lock = reentrant(getattr(self.w, "_condition", None)) if wait and self.lines else None
        with lock or contextlib.nullcontext():
            if lock:
                busy = obj.get_root(False) is None and (not x or self.m != 0)
            r = obj.get_transform(wait, call) if x else obj.get_root(wait, call)
        if x:
            self.rec("getx", cb=cb, wait=wait, busy=busy, res=self.flatres(r))
        else:
            self.rec("get", cb=cb, wait=wait, busy=busy, ret=r is not None, tree=[] if r is None else px.flat(self.ids, r))
        if wait:
            if not self.lines:
                self.sched.set_free(False)
            else:
                self.waiting = False
                pump.join()
        return r

    def operate(self, top):
        r = self.rng.random()
        if self.lines and self.rng.random() < .05:
            x = self.rng.random() < self.xprob
            for _ in range(self.rng.choice([1, 1, 6])):
                self.waiter(x)
        if r < self.pupdate:
            self.update()
        elif r < self.pupdate + .06:
            self.update(True)
        elif r < self.pupdate + .06 + self.pxform:
            self.set_transformer()
        else:
            self.get(self.rng.random() < self.xprob, top and self.rng.random() < .25)

    # ---- handlers ---------------------------------------------------------
    def reenter(self):
        """Perhaps do something in a handler."""
        if self.bg:
            if self.gated and not self.sched.free and self.rng.random() < .1:
                self.get(self.rng.random() < self.xprob, False)
            elif self.gated and not self.sched.free and self.rng.random() < .05:
                # does not wait in the background thread itself
                obj = self.w if self.doc is None else self.doc
                obj.get_transform(True) if self.rng.random() < self.xprob else obj.get_root(True)
        elif self.left > 0 and self.rng.random() < .3:
            self.left -= 1
            self.depth += 1
            self.operate(False)
            self.depth -= 1

    def xhandler(self, *args):
        """Event handler of the transformers; only the transformer may be
        changed here."""
        self.sched.gate("xf")
        if not self.bg and self.left > 0 and self.rng.random() < .3:
            self.left -= 1
            if self.rng.random() < .6:
                self.set_transformer()
            else:
                self.get(self.rng.random() < self.xprob, False)

    def handler(self, name):
        def handle(*args):
            tree = px.flat(self.ids, self.w.builder().root) if name in ("tree_updated", "tree_finished") else []
            self.rec("event", name=name, tree=tree)
            self.sched.gate(name)
            self.reenter()
        return handle

    def idle(self):
        """Run until the work is done."""
        self.sched.set_free(True)
        while self.sched.threads():
            time.sleep(.0005)
        while any(th.is_alive() for th in self.waiters):
            time.sleep(.0005)       # ends, or the run is found to be stuck
        self.rec("idle")
        for x in (False, True):
            self.get(x, False, True)
        self.sched.set_free(False)

    def main(self):
        import parce
        from parce.treebuilder import TreeBuilder
        from parce.work import Worker, BackgroundWorker
        root = self.comp.lexicon(1)
        self.left = 0
        if self.kind == "bdocument":
            self.doc = parce.Document(root)
            self.w = self.doc.worker()
        elif self.kind == "document":
            self.doc = parce.Document(root, worker=Worker(TreeBuilder(root)))
            self.w = self.doc.worker()
        else:
            self.doc = None
            self.w = (BackgroundWorker if self.bg else Worker)(TreeBuilder(root))
        for e in ("started", "tree_updated", "tree_finished", "transform_finished"):
            self.w.connect(e, self.handler(e))
        self.w.builder().connect("replace", lambda: self.sched.gate("replace"))
        self.comp.hook = lambda: self.sched.gate("lex")
        self.sched.set_free(False)
        if self.rng.random() < self.xprob:
            self.set_transformer()
        self.text = self.first
        self.rec("update", ss=[[{"s": 0, "e": 0, "t": codes(self.first)}]])
        if self.doc is not None:
            self.doc[0:0] = self.first
        else:
            self.w.update(self.first)
        self.rec("made")
        self.sched.sync()
        for i in range(self.nops):
            if self.bg:
                for _ in range(self.rng.choice(self.burst)):
                    self.sched.step()
                if not self.gated and self.rng.random() < .5:
                    time.sleep(self.rng.random() * .002)
                self.sched.inop = True
                self.operate(True)
                self.sched.inop = False
                self.sched.sync()
                if self.rng.random() < .1:
                    self.idle()
            else:
                self.left = self.rng.choice([0, 1, 2, 3])
                self.operate(True)
                self.rec("idle")
                for x in (False, True):
                    self.get(x, False, True)
        self.idle()
        self.done = True

    def run(self):
        self.done = False
        def body():
            try:
                self.mainthread = threading.current_thread()
                self.sched.known.add(self.mainthread)
                with Locks():
                    self.main()
            except Exception as e:
                self.rec("exc", name=where(e))
                self.sched.set_free(True)
        hook = threading.excepthook
        def excepthook(a):
            self.rec("exc", name=where(a.exc_value))
        threading.excepthook = excepthook
        th = threading.Thread(target=body, daemon=True)
        if self.lines:
            threading.settrace(self.trace)
        th.start()
        t0 = time.monotonic()
        while True:
            th.join(.2)
            if not th.is_alive():
                break
            now = time.monotonic()
            if now - self.sched.progress > .8 and self.sched.at_gate:
                self.sched.gated = False
                self.sched.set_free(True)       # main is blocked by something held at a gate
            if now - self.sched.progress > 12 or now - t0 > 60:
                self.rec("exc", name="Deadlock")
                break
        threading.excepthook = hook
        if self.lines:
            threading.settrace(None)
        self.comp.hook = None
        return {"root": self.ids.key(self.comp.lexicon(1)), "m": 0, "Ms": self.Ms, "ncb": self.ncb,
                "ev": list(self.log), "langdata": self.data, "case": self.case}


def scenarios(job):
    seed, quick, count, kinds, maxlen, nops, xprob = job
    rng = random.Random(seed)
    res = []
    for _ in range(count):
        kind, gated = rng.choice(kinds)
        tr = Scenario(random.Random(rng.random()), kind, gated, maxlen, nops, xprob).run()
        res.append(tr)
        exc = [e for e in tr["ev"] if e["op"] == "exc"]
        if exc and exc[0]["name"] == "Deadlock":
            break
        if sum(1 for t in res if any(e["op"] == "exc" for e in t["ev"])) >= 3:
            break
    return res


def check(ctx, clauses, count, xprob):
    for nested, kinds in ((False, [("bworker", True), ("bdocument", True)] * 2 + [("bworker", False), ("bdocument", False)]),
                          (True, [("worker", False), ("document", False)])):
        traces = ctx.collect(scenarios, 8, (count if nested else 4 * count, kinds, 20, 14, xprob))
        data, cases = lexdrive.pack(traces)
        data["clauses"] = clauses
        data["nested"] = nested
        ctx.sample({"case": {k: v for k, v in cases[0].items() if k != "lang"}})
        ctx.validate("WorkerTrace", data, cases, "foreground" if nested else "background")
