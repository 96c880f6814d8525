"""Drives an Observable with handlers that act while being called."""
import contextlib
import random

from .core import cpu_limit, Hang, where

D = {"ev": 0, "f": 0, "once": False, "self": False, "prio": 0, "arg": 0, "ret": False, "ctx": []}


class Handlers:
    """Numbered handlers: odd numbers are functions, even ones methods."""
    def __init__(self, run, n):
        self.run = run
        self.funcs = {}
        self.objs = {}
        for i in range(1, n + 1):
            if i % 2:
                def f(*args, _i=i, **kw):
                    return run.called(_i, args, kw)
                self.funcs[i] = f
            else:
                self.objs[i] = Obj(run, i)

    def get(self, i):
        return self.funcs[i] if i in self.funcs else self.objs[i].meth

    def alive(self):
        return list(self.funcs) + list(self.objs)


class Obj:
    def __init__(self, run, i):
        self.run, self.i = run, i

    def meth(self, *args, **kw):
        return self.run.called(self.i, args, kw)



class Run:
    def __init__(self, rng, cls, nops):
        self.rng = rng
        self.o = cls()
        self.h = Handlers(self, 6)
        self.log = []
        self.depth = 0
        self.budget = nops
        self.emits = 0
        self.last = 6
        self.entered = []
        # the names of the two events
        self.names = rng.choice([{1: 1, 2: 2}, {1: "changed", 2: ""}, {1: 0, 2: "other"}])

    def rec(this, op, **kw):
        this.log.append(dict(D, op=op, **kw))

    def called(self, i, args, kw):
        self.depth += 1
        selfarg = bool(args) and args[0] is self.o
        if selfarg:
            args = args[1:]
        a = args[0] if len(args) == 1 and kw == {"k": -args[0]} else -1
        self.rec("call", f=i, arg=a, **{"self": selfarg})
        if self.rng.random() < .5:
            for _ in range(self.rng.choice([1, 1, 2])):
                self.act()
        self.depth -= 1
        r = self.rng.random()
        if r < .6:
            return None
        if r < .7:
            return 5
        return self.context(i)

    @contextlib.contextmanager
    def context(self, i):
        self.rec("enter", f=i)
        self.entered[-1].append(i)
        try:
            yield
        finally:
            self.rec("exit", f=i)

    def emit(self, ev=None):
        rng, o = self.rng, self.o
        ev = ev or rng.choice([1, 1, 1, 2])
        self.emits += 1
        a = self.emits
        self.rec("emit", ev=ev, arg=a)
        self.entered.append([])
        s = o.emit(self.names[ev], a, k=-a)
        self.rec("end", ctx=self.entered.pop())
        self.keep.append(s)
        if rng.random() < .6:
            with s:
                self.rec("with")
                if rng.random() < .3:
                    self.act()
            self.rec("out")

    keep = []

    def act(self):
        if self.budget <= 0 or self.depth > 4:
            return
        self.budget -= 1
        rng, o, h = self.rng, self.o, self.h
        r = rng.random()
        ev = rng.choice([1, 1, 1, 2])
        i = rng.choice(h.alive())
        name = self.names[ev]
        if r < .35:
            kw = {"once": rng.random() < .3, "self": rng.random() < .3, "prio": rng.choice([0, 0, 0, 1, -1])}
            self.rec("connect", ev=ev, f=i, **kw)
            if kw == {"once": False, "self": False, "prio": 0}:
                o.connect(name, h.get(i))
            else:
                o.connect(name, h.get(i), kw["once"], prepend_self=kw["self"], priority=kw["prio"])
        elif r < .5:
            self.rec("disconnect", ev=ev, f=i)
            o.disconnect(name, h.get(i))
        elif r < .52:
            ev = rng.choice([0, 1, 2])
            self.rec("all", ev=ev)
            o.disconnect_all(self.names.get(ev))
        elif r < .59 and h.objs and self.depth == 0:
            # the object of a method goes; sometimes another one takes its place
            i = rng.choice(list(h.objs))
            self.rec("kill", f=i)
            del h.objs[i]
            if rng.random() < .7:
                self.last += 2
                h.objs[self.last] = Obj(self, self.last)
            if rng.random() < .6:
                # what was connected is found out when the event is emitted
                if rng.random() < .8:
                    self.emit(ev)
                self.rec("has", ev=ev, ret=bool(o.has_connections(name)))
        elif r < .63:
            self.rec("has", ev=ev, ret=bool(o.has_connections(name)))
        elif r < .68:
            self.rec("is", ev=ev, f=i, ret=bool(o.is_connected(name, h.get(i))))
        else:
            self.emit()


def histories(job):
    seed, quick, count, nops = job
    rng = random.Random(seed)
    from parce.util import Observable
    res = []
    for _ in range(count):
        s = rng.random()
        run = Run(random.Random(s), Observable, nops)
        run.keep = []
        try:
            with cpu_limit(5):
                while run.budget > 0:
                    run.act()
        except Hang:
            run.rec("exc", ctx=["Hang"])
        except Exception as e:
            run.rec("exc", ctx=[where(e)])
        res.append({"ev": list(run.log), "case": {"seed": s, "log": [
            [x["op"]] + ["%s=%s" % (k, v) for k, v in x.items() if k != "op" and v != D[k]] for x in run.log]}})
    return res
