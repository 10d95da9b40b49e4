"""Threads of the code under test run one at a time; who goes on at each line (or bytecode) is the harness's choice.
Import before anything that does `from threading import ...`.  Locks, events, conditions, sleeping and joining are
the scheduler's too, and time is virtual."""
import _thread, sys, threading, time
_alloc, _start = _thread.allocate_lock, _thread.start_new_thread
_sleep = time.sleep
ident = _thread.get_ident

class Kill(BaseException): pass

class T:
    def __init__(self, name): self.name, self.go, self.state, self.until, self.pred, self.why, self.exc, self.live = name, _alloc(), "ready", None, None, None, None, True; self.go.acquire()

class Sched:
    def __init__(self, choose, watch=(), opcodes=False):
        self.choose, self.watch, self.opcodes = choose, tuple(watch), opcodes
        self.ts, self.cur, self.now, self.by, self.points = [], None, 0, {}, 0
        self.stuck = None            # called when nobody can go on; may make someone ready
        self.limit = 100000
        self.home = _alloc(); self.home.acquire()
        self.dead = self.fair = False
        self.on_time = None
    # ---- called by the scheduler's threads
    def me(self): return self.by.get(ident())
    def spawn(self, f, name):
        t = T(name); self.ts.append(t)
        def run():
            self.by[ident()] = t
            t.go.acquire()
            try:
                if not self.dead:
                    sys.settrace(self.tracer)
                    f()
            except Kill: pass
            except BaseException as e: t.exc = e
            finally:
                sys.settrace(None)
                t.state, t.live = "done", False
                self.by.pop(ident(), None)
                self.hand(t)
        _start(run, ())
        return t
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.endswith(self.watch):
            frame.f_trace_opcodes = self.opcodes
            return self.local
        return None
    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"): self.point()
        return self.local
    def point(self):
        t = self.me()
        if t is None or t.go is None: return
        tr = sys.gettrace(); sys.settrace(None)
        try: self.hand(t)
        finally: sys.settrace(tr)
    def ready(self):
        out = []
        for t in self.ts:
            if t.state == "blocked" and t.pred(): t.state = "ready"
            if t.state == "ready": out.append(t)
        return out
    def sleepers(self): return [t for t in self.ts if t.until is not None and t.state in ("sleep", "blocked")]
    def hand(self, t):
        """t gives the turn to whoever is chosen (possibly itself)"""
        self.points += 1
        if self.points > self.limit: self.dead = True
        nxt = None
        while not self.dead:
            r, z = self.ready(), self.sleepers()
            if not r and not z:
                if all(x.state == "done" for x in self.ts): break
                if self.stuck is None or not self.stuck(): self.dead = True
                continue
            # fair: time passes only when nobody can go on
            nxt = self.choose(self, t, r, z) if not self.fair else (t if t in r else r[0]) if r else min(z, key=lambda x: x.until)
            break
        if self.dead or nxt is None:
            if t.state != "done" and self.dead:
                self.home.release() if self.home.locked() else None
                t.state = "killed"
                raise Kill()
            if self.home.locked(): self.home.release()
            return
        if nxt.state != "ready":
            if nxt.until > self.now:
                self.now = nxt.until
                if self.on_time: self.on_time(self.now)
            nxt.state, nxt.until = "ready", None
            nxt.why = "time"
        self.cur = nxt
        if nxt is t: return
        nxt.go.release()
        if t.state == "done": return
        t.go.acquire()
        if self.dead: raise Kill()
    def wait(self, pred, timeout=None):
        """until pred() or the time is up; the current thread is a scheduler's thread"""
        t = self.me()
        tr = sys.gettrace(); sys.settrace(None)
        try:
            t.pred, t.state, t.why = pred, "blocked", None
            t.until = None if timeout is None else self.now + int(timeout * 1e9)
            self.hand(t)
            t.until = None
            return t.why != "time" or pred()
        finally: sys.settrace(tr)
    def sleep(self, s):
        t = self.me()
        tr = sys.gettrace(); sys.settrace(None)
        try:
            t.state, t.until, t.pred = "sleep", self.now + max(0, int(s * 1e9)), None
            self.hand(t)
        finally: sys.settrace(tr)
    # ---- called by the harness
    def run(self):
        """starts the threads and returns when all are done, or nobody can go on"""
        global S
        S = self
        r = self.ready()
        if not r: return True
        first = self.choose(self, None, r, [])
        self.cur = first
        first.go.release()
        self.home.acquire()
        S = None
        ok = not self.dead and all(t.state == "done" for t in self.ts)
        if not ok:
            self.dead = True
            for t in self.ts:
                if t.state not in ("done", "killed"):
                    try: t.go.release()
                    except RuntimeError: pass
        return ok
S = None
def mine(): return S is not None and S.me() is not None

class Lock:
    def __init__(self): self.held = False; self.owner = None
    def acquire(self, blocking=True, timeout=-1):
        if not mine():
            if self.held and blocking and timeout == -1: raise RuntimeError("coop: lock held")
            if self.held: return False
            self.held = True; return True
        S.point()
        while self.held:
            if not blocking: return False
            if not S.wait(lambda: not self.held, None if timeout is None or timeout < 0 else timeout) and self.held: return False
        self.held = True; self.owner = ident()
        return True
    def release(self):
        if not self.held: raise RuntimeError("release unlocked lock")
        self.held = False; self.owner = None
        if mine() and sys.exc_info()[0] is not Kill: S.point()
    def locked(self): return self.held
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self.held = False
    acquire_lock, release_lock, locked_lock = acquire, release, locked
class RLock(Lock):
    def __init__(self): Lock.__init__(self); self.n = 0
    def acquire(self, blocking=True, timeout=-1):
        if self.held and self.owner == ident(): self.n += 1; return True
        if not Lock.acquire(self, blocking, timeout): return False
        self.owner = ident(); self.n = 1
        return True
    def release(self):
        if self.owner != ident(): raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0: Lock.release(self)
    def _is_owned(self): return self.held and self.owner == ident()
    def _release_save(self): n = self.n; self.n = 0; Lock.release(self); return n
    def _acquire_restore(self, n): Lock.acquire(self); self.owner = ident(); self.n = n

class Thread:
    count = 0
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread.count += 1
        self._target, self._args, self._kwargs, self.name, self.daemon, self.t = target, args, kwargs or {}, name or "Thread-%d" % Thread.count, daemon, None
        self.ident = None
    def run(self):
        if self._target: self._target(*self._args, **self._kwargs)
    def start(self):
        if self.t is not None: raise RuntimeError("threads can only be started once")
        if not mine(): raise RuntimeError("coop: thread started outside of a scenario")
        self.t = S.spawn(self.run, self); self.ident = id(self)
        S.point()
    def join(self, timeout=None):
        if self.t is None: raise RuntimeError("cannot join thread before it is started")
        if mine():
            if S.me() is self.t: raise RuntimeError("cannot join current thread")
            S.wait(lambda: not self.t.live, timeout)
    def is_alive(self): return self.t is not None and self.t.live
    def setDaemon(self, d): self.daemon = d
    def getName(self): return self.name

def sleep(s):
    if mine(): S.sleep(s)
    else: _sleep(min(s, 0.001))
def install():
    threading.Lock, threading.RLock, threading._allocate_lock, threading._RLock, threading._CRLock = Lock, RLock, Lock, RLock, None
    threading.Thread = Thread
    time.sleep = sleep
    time.time = lambda: (S.now if S else 0) / 1e9
    time.monotonic = time.perf_counter = time.time
    threading._time = time.monotonic

# ---- choices
def randomly(R, p_switch, p_time=0.02):
    def choose(s, t, r, z):
        if z and (not r or R.random() < p_time):
            z = sorted(z, key=lambda x: x.until)
            return z[0] if not r or R.random() < .8 else R.choice(z)
        if t in r and R.random() > p_switch: return t
        return R.choice(r)
    return choose
class Systematic:
    """all schedules with at most `bound` switches away from a thread that could go on, one after another"""
    def __init__(self, bound): self.bound, self.prefix, self.done = bound, [], False
    def start(self): self.k, self.used, self.tail = 0, 0, []
    def __call__(self, s, t, r, z):
        if not r: return min(z, key=lambda x: x.until)
        opts = ([t] + [x for x in r if x is not t]) if t in r else list(r)
        if t in r and self.used >= self.bound: opts = [t]
        c = 0
        if len(opts) > 1:
            if self.k < len(self.prefix): c = self.prefix[self.k]
            self.tail.append((c, len(opts))); self.k += 1
        if t in r and opts[c] is not t: self.used += 1
        return opts[c]
    def next(self):
        tail = self.tail
        while tail and tail[-1][0] + 1 >= tail[-1][1]: tail.pop()
        if not tail: self.done = True; return
        self.prefix = [c for c, _ in tail[:-1]] + [tail[-1][0] + 1]
