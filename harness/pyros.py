# ROS contexts, waiting for conditions and connecting publishers, in virtual time.
from pytrace import *
import time
import rosfake, rospy
from rosfake import S
slept = []
def nap(s):
    S.now += int(round(s * 1e9))
    for f in slept: f(s)
time.sleep = nap
import arc_utilities.ros_init as RI, arc_utilities.ros_helpers as RH

class Boom(Exception): pass
OUT = {"raise": Boom, "exit": SystemExit, "break": KeyboardInterrupt}
def ms(): return int(S.now // 1000000)

def contexts():
    R = rng(51)
    def hook(kind, *d):
        if kind == "init_node": ev("up", kind="py", name=d[0])
        elif kind == "cpp_init": ev("up", kind="cpp", name=d[0])
        elif kind == "signal_shutdown": ev("down", kind="py")
        elif kind == "cpp_shutdown": ev("down", kind="cpp")
    serial = [0]
    def level(plan):
        """runs the plan from an "enter"; the rest of the plan is left in place"""
        plan.pop(0)
        name = R.choice(["node", "n", "a_b", "x%d" % R.randrange(100)])
        serial[0] += 1; me = serial[0]
        result = [None]
        given = ([object() for _ in range(R.randrange(4))], {k: object() for k in R.sample(["x", "name", "y", "func"], R.randrange(3))})
        def body(*a, **k):
            same = len(a) == len(given[0]) and all(x is y for x, y in zip(a, given[0])) and set(k) == set(given[1]) and all(k[n] is given[1][n] for n in k)
            ev("body", args=same)
            inner = None
            while plan:
                w = plan[0]
                if w == "enter":
                    try: level(plan)
                    except (Boom, SystemExit, KeyboardInterrupt) as e: inner = e
                    continue
                plan.pop(0)
                if w == "value":
                    result[0] = R.choice([None, False, 0, object(), [], (1, 2)])
                    ev("leave", how="value", val=me); return result[0]
                e = inner if w == "through" else OUT[w]("out")
                result[0] = e
                ev("leave", how=type(e).__name__, val=me)
                raise e
            result[0] = None
            ev("leave", how="value", val=me)
        ev("enter", name=name)
        form = R.randrange(3)
        v = object()
        try:
            if form == 0: v = RI.with_ros(name)(body)(*given[0], **given[1])
            elif form == 1:
                with RI.RosContext(name): v = body(*given[0], **given[1])
            else:
                @RI.with_ros(name)
                def f(*a, **k): return body(*a, **k)
                v = f(*given[0], **given[1])
        except (Boom, SystemExit, KeyboardInterrupt) as e:
            ev("result", how=type(e).__name__, val=me if e is result[0] else BAD); raise
        except Exception as e:
            ev("result", how=type(e).__name__, val=BAD)
        else: ev("result", how="value", val=me if v is result[0] else BAD)
    for l in gen_lines():
        plan = tla(l)
        rosfake.reset(); S.hook = hook
        begin("context")
        while plan:
            if plan[0] != "enter": break
            try: level(plan)
            except (Boom, SystemExit, KeyboardInterrupt): pass
        ev("end")
    # a decorated function can be run again and again
    for it in range(scale(50, 300)):
        rosfake.reset(); S.hook = hook; begin("context")
        n = [0]
        @RI.with_ros("again")
        def f(how):
            ev("body", args=True)
            if how == "value": ev("leave", how=how, val=n[0]); return n[0]
            ev("leave", how=OUT[how].__name__, val=n[0]); raise OUT[how](n[0])
        for _ in range(R.randrange(1, 5)):
            n[0] += 1; how = R.choice(["value", "raise", "exit", "break"])
            ev("enter", name="again")
            try: v = f(how); ev("result", how="value", val=v if isinstance(v, int) else BAD)
            except (Boom, SystemExit, KeyboardInterrupt) as e: ev("result", how=type(e).__name__, val=e.args[0])
        ev("end")

def helpers():
    R = rng(52)
    # conditions by number of evaluations, and by time
    for it in range(scale(400, 4000)):
        rosfake.reset(); slept.clear()
        S.now = R.choice([0, 10**9, 1700000000 * 10**9]); t0 = S.now
        now = lambda: int((S.now - t0) // 1000000)
        after = R.choice([None, 0, 1, 2, 10])
        name = R.choice(["", "the thing", "Listener(/x)", None])
        span = R.choice([0, 5, 50, 900, 3000, 15000])
        at = R.choice([None, R.randrange(0, span + 1)]); down = R.choice([None, R.randrange(0, span + 1)])
        evals = R.choice([None, None, 1, 2, 5])
        fails = R.choice([None, None, None, 1, 3])
        if at is None and down is None and evals is None: down = span
        begin("wait", after=-1 if after is None else after * 1000)
        k = [0, False]
        def on_sleep(s):
            if down is not None and now() >= down and not S.shutdown: S.shutdown = True; ev("shut", now=now())
            if now() > 60000 or len(S.log_ if hasattr(S, "log_") else ()) > 1: raise RuntimeError("waits for ever")
        slept.append(on_sleep)
        def cond():
            k[0] += 1
            if fails == k[0]: ev("asked", now=now(), holds=False, since=0, fails=True); raise Boom()
            h = (at is not None and now() >= at) or (evals is not None and k[0] >= evals)
            ev("asked", now=now(), holds=h, since=now() if not (at is not None and now() >= at) else at, fails=False)
            return R.choice([True, 1, "x", [0]]) if h else R.choice([False, 0, None, "", []])
        def hook(kind, *d):
            if kind == "log" and d[0] == "warn": ev("warn", now=now(), named=(not name) or name in d[1])
        S.hook = hook
        if down == 0: S.shutdown = True; ev("shut", now=0)
        a = [cond] + ([] if after == 10 and not name and R.random() < .5 else [after] if not name else [after, name])
        if not name and len(a) > 1 and name is None: a.append(None)
        st, _ = attempt(RH.wait_for, *a)
        ev("waited", status=st, now=now())
        S.hook = None
    class Pub:
        def __init__(self, name, p, con): self.name, self.p, self.con = name, p, con
        def get_num_connections(self): ev("poll", p=self.p); return self.con[self.p - 1]
    names = ["/alpha", "/beta", "/gamma/x", "/delta"]
    def connect(states, raises):
        rosfake.reset(); slept.clear()
        con = list(states[0])
        begin("connect", con=con, need=1, raises=raises)
        rest = states[1:]
        def on_sleep(s):
            if rest: con[:] = rest.pop(0)
            ev("pause", con=con, ms=int(round(s * 1000)))
            if S.now > 60e9: raise RuntimeError("waits for ever")
        slept.append(on_sleep)
        pubs = [Pub(names[k], k + 1, con) for k in range(len(con))]
        text = []
        S.hook = lambda kind, *d: text.append(d[1]) if kind == "log" and d[0] in ("warn", "error", "fatal") else None
        n = 0
        try: RH.try_to_connect(*pubs, **(dict(raise_on_fail=raises) if raises or R.random() < .5 else {})); st = "ok"
        except Exception as e: st = type(e).__name__; n = len(text); text.append(str(e))
        S.hook = None; slept.clear()
        ev("connected", status=st, warns=len(text) if st == "ok" else n, names=[any(names[k] in t for t in text) for k in range(len(con))], own=True)
    for l in gen_lines():
        l = tla(l)
        if not isinstance(l[0], list): continue
        connect([[R.choice([1, 2, 3]) if x else 0 for x in c] for c in l], R.random() < .5)
    for it in range(scale(200, 2000)):
        n = R.choice([0, 1, 2, 3, 4])
        c = [0] * n; states = [list(c)]
        for _ in range(R.choice([0, 2, 5, 8])):
            for k in range(n):
                if R.random() < .3: c[k] = R.choice([0, 1, 1, 2])
            states.append(list(c))
        connect(states, R.random() < .5)
    for it in range(scale(300, 3000)):
        rosfake.reset(); slept.clear()
        topic = R.choice(["/a", "/a/b", "a", "top", "/x"])
        full = topic if topic[0] == "/" else "/" + topic
        need = R.choice([0, 1, 1, 2, 3])
        others = [[t, ["/n%d" % k for k in range(R.randrange(1, 4))]] for t in ("/a2", "/b", "/topp", "/a/b/c") if R.random() < .6]
        subs = others + ([[full, ["/s%d" % k for k in range(need)]]] if need else [])
        R.shuffle(subs)
        S.system_state = [[[full, ["/p1", "/p2"]]], subs, [[full, ["/q"]]]]
        states = [[0]]
        for _ in range(R.choice([0, 1, 3, 4, 5, 7])): states.append([max(0, states[-1][0] + R.choice([0, 0, 1, 1, 2, -1]))])
        con = list(states[0]); rest = states[1:]
        begin("connect", con=con, need=need, raises=True)
        S.connections[topic] = lambda: (ev("poll", p=1), con[0])[1]
        def on_sleep(s):
            if rest: con[:] = rest.pop(0)
            ev("pause", con=con, ms=int(round(s * 1000)))
            if S.now > 60e9: raise RuntimeError("waits for ever")
        slept.append(on_sleep)
        kw = R.choice([dict(queue_size=10), dict(queue_size=1, latch=True), {}])
        cls = R.choice([int, dict, rosfake.Msg])
        try: pub = RH.get_connected_publisher(topic, cls, **kw); st = "ok"; msg = ""
        except Exception as e: st = type(e).__name__; msg = str(e); pub = None
        slept.clear()
        made = getattr(S, "pubs", [])
        own = st != "ok" or (isinstance(pub, rosfake.Publisher) and pub.name == topic and pub.data_class is cls and all(pub.kw[k] == v for k, v in kw.items()))
        ev("connected", status=st, warns=0, names=[topic in msg], own=own)
    for it in range(30):
        rosfake.reset(); begin("fatal")
        cls = R.choice([RuntimeError, ValueError, Boom, KeyError]); text = "message %d" % R.randrange(100)
        try: RH.logfatal(cls, text); st, ok = "ok", False
        except Exception as e: st, ok = type(e).__name__, e.args == (text,)
        l = [d for d in rosfake.log if d[0] == "log" and d[1] == "fatal"]
        ev("fatal", status=st, **{"class": cls.__name__}, logged=len(l), text=ok and len(l) == 1 and text in l[0][2])
    lookups(R)

def lookups(R):
    """waiting for a transform: the buffer has it after some asks, or ROS shuts down, or the look-up fails"""
    import numpy as np, tf2_ros, rospy, arc_utilities.tf2wrapper as TW
    from tf.transformations import quaternion_matrix
    from geometry_msgs.msg import TransformStamped
    bad = {"LookupException": tf2_ros.LookupException, "ConnectivityException": tf2_ros.ConnectivityException, "ExtrapolationException": tf2_ros.ExtrapolationException, "Boom": Boom}
    class Scripted:
        def can_transform(self, target_frame, source_frame, time=None, timeout=None, return_debug_tuple=False):
            self.asks += 1
            self.right = self.right and (target_frame, source_frame) == self.want and time == self.at
            if timeout is not None: nap(timeout.to_sec())
            if self.asks == self.down: S.shutdown = True
            if self.asks > 60: raise MemoryError("waits for ever")
            return self.asks > self.waits
        def lookup_transform(self, target_frame, source_frame, time=None, timeout=None):
            self.looked += 1
            self.right = self.right and (target_frame, source_frame) == self.want and time == self.at and self.asks > self.waits
            if self.fails: raise bad[self.fails]("scripted")
            return self.msg
    for it in range(scale(300, 3000)):
        rosfake.reset(); slept.clear()
        B = Scripted(); B.asks = B.looked = 0; B.right = True
        B.waits = R.choice([0, 0, 1, 2, 5, 20]); B.down = R.randrange(0, B.waits + 1) if B.waits and R.random() < .4 else -1
        B.fails = R.choice(["", "", "", "LookupException", "ConnectivityException", "ExtrapolationException", "Boom"])
        B.want = tuple(R.sample(["map", "odom", "base", "tool"], 2)); B.at = R.choice([rospy.Time(), rospy.Time(5, 7)])
        t = TransformStamped(); q = np.array([R.randrange(-4, 5) for _ in range(3)] + [R.randrange(1, 5)], float); q /= np.linalg.norm(q); d = [R.randrange(-50, 50) / 8.0 for _ in range(3)]
        t.header.frame_id, t.child_frame_id = B.want
        t.transform.translation.x, t.transform.translation.y, t.transform.translation.z = d
        t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w = map(float, q)
        B.msg = t
        if B.down == 0: S.shutdown = True
        matrix = R.random() < .6
        begin("lookup", waits=B.waits, down=B.down, fails=B.fails, matrix=matrix)
        W = TW.TF2Wrapper(buffer=B, listener=object())
        kw = {} if B.at == rospy.Time() and R.random() < .5 else dict(time=B.at)
        if R.random() < .5: kw["verbose"] = R.random() < .5
        if R.random() < .5: kw["spin_delay"] = rospy.Duration(R.choice([0, 1]), R.choice([0, 250000000]))
        try: r = (W.get_transform if matrix else W.get_transform_msg)(*B.want, **kw); st = "ok"
        except (Exception, KeyboardInterrupt) as e: st = type(e).__name__; r = None
        if matrix:
            m = quaternion_matrix(q); m[:3, 3] = d
            good = r is not None and np.shape(r) == (4, 4) and bool(np.allclose(r, m, atol=1e-9))
        else: good = r is t
        ev("lookup", status=st, good=good, none=r is None, right=B.right, asks=B.asks)

main(dict(contexts=contexts, helpers=helpers))
