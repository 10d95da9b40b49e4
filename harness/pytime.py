# Timeout wrappers under chosen placements of the alarm.
import contextlib, io, sys, time
from pytrace import *
import signal

class Clock:
    """stands in for the process's alarm: nothing fires by itself"""
    def __init__(self): self.armed, self.at_arm, self.at_disarm, self.seconds, self.fires = False, None, None, [], 0
    def set(self, s):
        if s and s > 0:
            self.armed = True; self.seconds.append(s)
            if self.at_arm: self.fire("early")
        else:
            if self.armed and self.at_disarm and self.at_disarm():
                self.fire("late")
            self.armed = False
        return 0
    def fire(self, where):
        if not self.armed: return
        self.armed = False; self.fires += 1
        if self.on_fire: self.on_fire(where)
        signal.raise_signal(signal.SIGALRM)
    on_fire = None
clock = Clock()
def use(c):
    global clock
    clock = c
    signal.alarm = lambda s: clock.set(s)
    def setitimer(which, s, interval=0.0):
        clock.set(s); return (0.0, 0.0)
    signal.setitimer = setitimer
    signal.getitimer = lambda w: (1.0 if clock.armed else 0.0, 0.0)

class Own(Exception): pass
class OwnBase(BaseException): pass
def single(C, ends, where, swallow, secs):
    """one guarded call: ends value/none/ordinary/interrupt; the alarm fires at `where`"""
    c = Clock(); use(c)
    begin("call", mode="call", items=0, cbgiven=False)
    calls, val, exc = [], object() if ends == "value" else None, Own() if ends == "ordinary" else OwnBase() if ends == "interrupt" else TimeoutError("own")
    a, kw = (object(), 3), {"k": object(), "gen": 5}
    sw = []
    def body(*x, **k):
        calls.append(x == a and k == kw and c.armed == (secs > 0))
        if where == "mid":
            try: c.fire("mid")
            except Exception:
                if not swallow: raise
                sw.append(1); return "rescued"
        if ends in ("value", "none"): return val
        raise exc
    if where == "early": c.at_arm = True
    if where == "late": c.at_disarm = lambda: True
    got = "?"
    try:
        r = C.catch_timeout(secs, body, *a, **kw)
        if r == (None, True) and r[1] is True and c.fires: got = "timeout"
        elif isinstance(r, tuple) and len(r) == 2 and r[1] is False: got = "rescued" if sw and r[0] == "rescued" else "result" if r[0] is val else "wrong"
        elif r == (None, True): got = "timeout"
        else: got = "wrong"
    except BaseException as e:
        got = "own" if e is exc else type(e).__name__
    ev("call", ends=ends, where=where if c.fires else "none", swallow=bool(sw), got=got, calls=len(calls), args=all(calls), armed=c.armed, secs=len(c.seconds) == (1 if secs else 0) and all(s == secs for s in c.seconds))

def series(C, mode, kind, fails, n, plan, cb=True, secs=2, stop=None, swallow=()):
    """plan: for each step of the wrapper where the alarm fires"""
    c = Clock(); use(c)
    begin("gen", mode=mode, items=n, cbgiven=cb)
    st = dict(step=-1, gens=0)
    def now(): return plan[st["step"]] if 0 <= st["step"] < len(plan) else "none"
    old = c.set
    def set_(s):
        if s and s > 0: st["step"] += 1; c.at_arm = now() == "early"
        return old(s)
    c.set = set_
    c.at_disarm = lambda: now() == "late"
    c.on_fire = lambda w: ev("fire", where=w)
    def inside(p, g=None):
        """a point inside the source's step"""
        ev("enter", g=st["gens"] if g is None else g, armed=c.armed)
        if now() == "mid":
            if st["step"] in swallow:
                try: c.fire("mid")
                except TimeoutError: ev("swallowed")
            else: c.fire("mid")
    def item(g, p): return (g, p)
    def genfun(*a, **k):
        st["gens"] += 1; g = st["gens"]; ev("start", g=g, args=a == (1, "x") and k == {"z": 2})
        def it():
            try:
                for p in range(1, n + 1):
                    inside(p, g)
                    ev("prod", g=g, p=p)
                    yield item(g, p)
                inside(n + 1, g)
                ev("raise" if fails else "fin", g=g)
                if fails: raise own
            except GeneratorExit: raise
            except TimeoutError:
                ev("dead", g=g); raise
        class It:
            def __init__(self): self.p = 0; self.over = False
            def __iter__(self): return self
            def __next__(self):
                if self.over: ev("fin", g=g); raise StopIteration
                self.p += 1
                inside(self.p, g)
                if self.p <= n:
                    ev("prod", g=g, p=self.p); return item(g, self.p)
                self.over = True
                ev("raise" if fails else "fin", g=g)
                if fails: raise own
                raise StopIteration
        return it() if kind == "gen" else It()
    own = Own()
    def callback(*a): ev("cb", args=a == ())
    try:
        g = C.retry_on_timeout(secs, callback if cb else None, genfun, 1, "x", z=2) if mode == "retry" else C.skip_on_timeout(secs, genfun, 1, "x", z=2)
        k = 0
        while True:
            try: v = next(g)
            except StopIteration: ev("stop", armed=c.armed); break
            k += 1
            ev("item", g=v[0], p=v[1], armed=c.armed)
            if stop is not None and k == stop: g.close(); ev("left", armed=c.armed); break
            if k > 60: ev("endless"); break
    except BaseException as e:
        ev("error", own=e is own, what=type(e).__name__, armed=c.armed)
    ev("end", secs=all(s == secs for s in c.seconds))

def timeouts():
    import arc_utilities.catches as C
    R = rng(21)
    with contextlib.redirect_stdout(io.StringIO()):
        for l in gen_lines():
            mode, kind, fails, n, h = tla(l)
            if mode == "call":
                for ends in ("value", "none", "ordinary", "interrupt", "timeout"):
                    for sw in (False, True): single(C, ends, h[0], sw, 3)
            else: series(C, mode, kind, fails, n, h)
        for _ in range(scale(150, 1500)):
            single(C, R.choice(["value", "none", "ordinary", "interrupt", "timeout"]), R.choice(["none", "early", "mid", "late"]), R.random() < .3, R.choice([0, 1, 5]))
        for _ in range(scale(300, 4000)):
            n = R.choice([0, 1, 2, 4, 7])
            plan = [R.choice(["none", "none", "none", "early", "mid", "late"]) for _ in range(R.choice([0, 3, 8, 14]))]
            series(C, R.choice(["retry", "skip"]), R.choice(["gen", "iter"]), R.random() < .25, n, plan, cb=R.random() < .7, secs=R.choice([1, 2, 9]),
                   stop=None if R.random() < .7 else R.randrange(1, 6), swallow={k for k in range(15) if R.random() < .15})
        # the real alarm
        signal.alarm = pytrace_real_alarm
        begin("real", mode="call", items=0, cbgiven=False)
        t = time.time(); r = C.catch_timeout(1, time.sleep, 8); d = time.time() - t
        left = pytrace_real_alarm(0)
        ev("real", got="timeout" if r == (None, True) else "other", inwindow=0.9 < d < 7.0, armed=left != 0)
        t = time.time(); r = C.catch_timeout(30, lambda: 7); left = pytrace_real_alarm(0)
        ev("real", got="timeout" if r == (7, False) else "other", inwindow=True, armed=left != 0)

pytrace_real_alarm = signal.alarm
main(dict(timeouts=timeouts))
