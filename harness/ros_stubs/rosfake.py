"""Stand-ins for the ROS Python packages: message classes with genpy's constructor rules, times, a local topic and node
registry.  Everything observable is recorded in `log`; the harness sets the hooks."""
import copy, threading, time as _time

log = []                      # (kind, detail...) in order
class State: pass
S = State()
def reset():
    S.shutdown = False
    S.now = 0                 # nanoseconds
    S.node = None
    S.cpp = None
    S.hook = None             # called as hook(kind, *detail) before each recorded action
    S.is_shutdown_hook = None
    S.topics = {}             # topic -> list of Subscriber
    S.connections = {}        # topic -> function returning the number of connections
    S.system_state = [[], [], []]
    S.shutdown_hooks = []
    S.fail = {}               # action -> exception to raise
    S.latched = {}
    S.latch_replay = False    # new subscribers receive the latched message, as in ROS
    del log[:]
def note(kind, *d):
    log.append((kind,) + d)
    if S.hook: S.hook(kind, *d)
    if kind in S.fail and S.fail[kind] is not None:
        e = S.fail[kind]
        raise e

class Msg:
    _fields = ()
    def __init__(self, *a, **k):
        if a and k: raise TypeError("positional or keyword arguments, not both")
        if a and len(a) != len(self._fields): raise TypeError("Invalid number of arguments, args should be %s" % [f for f, _ in self._fields])
        bad = set(k) - {f for f, _ in self._fields}
        if bad: raise AttributeError("%s is not an attribute of %s" % (bad, type(self).__name__))
        for n, (f, d) in enumerate(self._fields):
            v = a[n] if a else k.get(f)
            setattr(self, f, (d() if callable(d) else d) if v is None else v)
    @property
    def __slots_names__(self): return [f for f, _ in self._fields]
    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, f) == getattr(o, f) for f, _ in self._fields)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return type(self).__name__ + "(" + ", ".join("%s=%r" % (f, getattr(self, f)) for f, _ in self._fields) + ")"
def msg(name, *fields):
    c = type(name, (Msg,), {"_fields": fields})
    c.__slots__names = [f for f, _ in fields]
    c._type = "fake/" + name
    return c

class _T:
    def __init__(self, secs=0, nsecs=0):
        if not isinstance(secs, int):
            nsecs = int(round((secs - int(secs)) * 1e9)) + nsecs; secs = int(secs)
        self._ns = secs * 1000000000 + nsecs
    secs = property(lambda s: s._ns // 1000000000)
    nsecs = property(lambda s: s._ns % 1000000000)
    @classmethod
    def _of(cls, ns): r = cls(); r._ns = ns; return r
    @classmethod
    def from_sec(cls, s): return cls._of(int(round(s * 1e9)))
    def to_sec(self): return self._ns / 1e9
    def to_nsec(self): return self._ns
    def is_zero(self): return self._ns == 0
    def __bool__(self): return self._ns != 0
    def _same(self, o): return isinstance(o, _T) and isinstance(self, Time) == isinstance(o, Time)
    def __eq__(self, o): return self._same(o) and self._ns == o._ns
    def __hash__(self): return hash(self._ns)
    def _cmp(self, o):
        if not self._same(o): raise TypeError("cannot compare %s and %s" % (type(self).__name__, type(o).__name__))
        return o._ns
    def __lt__(self, o): return self._ns < self._cmp(o)
    def __le__(self, o): return self._ns <= self._cmp(o)
    def __gt__(self, o): return self._ns > self._cmp(o)
    def __ge__(self, o): return self._ns >= self._cmp(o)
    def __repr__(self): return "%s[%d]" % (type(self).__name__, self._ns)
class Duration(_T):
    def __add__(self, o):
        if isinstance(o, Time): return Time._of(self._ns + o._ns)
        if isinstance(o, Duration): return Duration._of(self._ns + o._ns)
        return NotImplemented
    def __sub__(self, o): return Duration._of(self._ns - o._ns) if isinstance(o, Duration) else NotImplemented
    def __neg__(self): return Duration._of(-self._ns)
    def __abs__(self): return Duration._of(abs(self._ns))
    def __mul__(self, f): return Duration._of(int(self._ns * f))
    __rmul__ = __mul__
    def __truediv__(self, o): return self._ns / o._ns if isinstance(o, Duration) else Duration._of(int(self._ns / o))
class Time(_T):
    @staticmethod
    def now(): return Time._of(S.now)
    get_time = now
    def __add__(self, o): return Time._of(self._ns + o._ns) if isinstance(o, Duration) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, Time): return Duration._of(self._ns - o._ns)
        if isinstance(o, Duration): return Time._of(self._ns - o._ns)
        return NotImplemented

class ROSException(Exception): pass
class ROSInitException(ROSException): pass
class ROSInterruptException(ROSException, KeyboardInterrupt): pass

def sleep(d): _time.sleep(d.to_sec() if isinstance(d, _T) else d)
class Rate:
    def __init__(self, hz, reset=False): self.hz = hz; self.sleep_dur = Duration._of(int(1e9 / hz))
    def sleep(self): _time.sleep(1.0 / self.hz)
    def remaining(self): return Duration._of(int(1e9 / self.hz))

def is_shutdown():
    if S.is_shutdown_hook: S.is_shutdown_hook()
    return S.shutdown
def init_node(name, *a, **k): note("init_node", name); S.node = name
def signal_shutdown(reason="", *a):
    note("signal_shutdown", reason); S.shutdown = True
    for h in S.shutdown_hooks: h()
def on_shutdown(h): S.shutdown_hooks.append(h)
def get_name(): return "/" + str(S.node)

class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
        note("subscribe", name)
        self.name, self.resolved_name, self.data_class, self.callback, self.args, self.queue_size = name, name, data_class, callback, callback_args, queue_size
        S.topics.setdefault(name, []).append(self)
        if S.hook: S.hook("subscribed", name, self)
    def deliver(self, m):
        if self.callback is not None:
            self.callback(m) if self.args is None else self.callback(m, self.args)
    def unregister(self):
        note("unsubscribe", self.name)
        if self in S.topics.get(self.name, []): S.topics[self.name].remove(self)
    def get_num_connections(self): return 1
class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None):
        self.name, self.resolved_name, self.data_class, self.latch, self.queue_size = name, name, data_class, latch, queue_size
        self.kw = dict(subscriber_listener=subscriber_listener, tcp_nodelay=tcp_nodelay, latch=latch, headers=headers, queue_size=queue_size)
        note("advertise", name)
        S.pubs = getattr(S, "pubs", []) + [self]
    def get_num_connections(self):
        f = S.connections.get(self.name)
        return f() if f else len(S.topics.get(self.name, []))
    def publish(self, m):
        note("publish", self.name, m)
        for s in list(S.topics.get(self.name, [])): s.deliver(m)
    def unregister(self): note("unadvertise", self.name)
def wait_for_message(topic, cls, timeout=None): raise ROSException("no message")

def _logger(level):
    def f(m, *a, **k): note("log", level, (m % a) if a else str(m))
    def throttle(p, m, *a, **k): note("log", level, (m % a) if a else str(m), p)
    return f, throttle
logdebug, logdebug_throttle = _logger("debug")
loginfo, loginfo_throttle = _logger("info")
logwarn, logwarn_throttle = _logger("warn")
logerr, logerr_throttle = _logger("error")
logfatal, logfatal_throttle = _logger("fatal")
loginfo_once, logwarn_once, logerr_once, logdebug_once = loginfo, logwarn, logerr, logdebug
reset()
