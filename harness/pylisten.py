# The message listener, under chosen interleavings of deliveries, reads and shutdown.
import coop
coop.install()
from pytrace import *
import threading
import rosfake, rospy
import arc_utilities.listener as LM, arc_utilities.ros_helpers

class Part:
    def __init__(self, n): self.values = [n, n]
    def __deepcopy__(self, memo):
        p = Part(0)
        for k in range(2):
            p.values[k] = self.values[k]
            if coop.mine(): mark()
        return p
Num = rosfake.msg("Num", ("num", 0), ("part", None), ("tail", 0))
def message(k): return Num(num=k, part=Part(k), tail=k)
def value(m):
    """the number of a whole message, 0 for none"""
    if m is None: return 0
    try: return m.num if [m.num, m.tail] + m.part.values == [m.num] * 4 and len(m.part.values) == 2 and type(m) is Num else BAD
    except Exception: return BAD
class Boom(Exception): pass
marked = [False]
def mark():
    if not coop.mine(): return
    marked[0] = True
    coop.S.point()
def guided(order, R):
    """the threads in the order of the model's steps, each until its next mark"""
    order = list(order)
    def choose(s, t, r, z):
        if t in r and not marked[0]: return t
        marked[0] = False
        while order:
            n = order.pop(0)
            for x in r + z:
                if x.name == n: return x
        return R.choice(r) if r else min(z, key=lambda x: x.until)
    return choose

def scenario(choose, plan, opcodes, R):
    """plan: cb (None, 'plain', 'raises'), wait (constructor), writers: lists of messages, readers: lists of blk, down"""
    rosfake.reset(); marked[0] = False
    topic = "/t%d" % R.randrange(1000)
    begin("listen", cb=plan["cb"] is not None)
    s = coop.Sched(choose, ("arc_utilities/listener.py", "arc_utilities/ros_helpers.py"), opcodes)
    sub, L, ids = [], [], [0]
    raising = set(plan.get("raising", ()))
    sent, results = [], []
    def nid(): ids[0] += 1; return ids[0]
    def hook(kind, *d):
        if kind == "subscribed" and d[0] == topic:
            sub.append(d[1]); mark()
    rosfake.S.hook = hook
    def user(m):
        ev("cb", m=value(m)); mark()
        if value(m) in raising: raise Boom()
        mark()
    def ctor():
        n = nid(); ev("ask", id=n, m=0, blk=plan["wait"])
        k = {}
        if plan["cb"]: k["callback"] = user
        if plan["wait"] or R.random() < .5: k["wait_for_data"] = plan["wait"]
        if R.random() < .3: k["queue_size"] = R.choice([1, 10])
        st, l = attempt(LM.Listener, topic, Num, **k)
        ev("made", id=n, status=st, topic=len(sub) == 1 and sub[0].data_class is Num and sub[0].queue_size == k.get("queue_size"))
        L.append(l)
    def writer(ms, pause):
        def f():
            coop.S.wait(lambda: sub)
            for m in ms:
                if pause: coop.S.sleep(R.random() * 0.05)
                n = nid(); o = message(m); sent.append((m, o))
                ev("put", id=n, m=m, blk=False); mark()
                st, _ = attempt(sub[0].deliver, o)
                ev("puts", id=n, m=m, status=st, raises=plan["cb"] is not None and m in raising); mark()
        return f
    def reader(bs, pause):
        def f():
            coop.S.wait(lambda: L)
            for b in bs:
                if pause: coop.S.sleep(R.random() * 0.05)
                n = nid(); ev("ask", id=n, m=0, blk=b); mark()
                st, v = attempt(*((L[0].get, b) if R.random() < .7 or not b else (L[0].get,)))
                own = lambda x: [x, getattr(x, "part", None), getattr(getattr(x, "part", None), "values", None)]
                others = [id(y) for _, o in sent for y in own(o)] + [id(y) for o in results for y in own(o)]
                fresh = v is not None and all(x is not None and id(x) not in others for x in own(v))
                ev("got", id=n, status=st, val=value(v) if st == "ok" else BAD, fresh=fresh); mark()
                if isinstance(v, Num) and fresh:        # its reader may do with it what it likes
                    results.append(v); v.num = v.tail = -7
                    if v.part.values: v.part.values[0] = -7
        return f
    def down():
        coop.S.wait(lambda: L or sub)
        coop.S.sleep(plan["down"])
        if not rosfake.S.shutdown: rosfake.S.shutdown = True; ev("down"); mark()
    def on_time(now):
        rosfake.S.now = now
        late = s.fair and now > 0.2e9      # everybody who could go on has gone on since time passed fairly
        if now > 0.15e9: s.fair = True
        if late and not rosfake.S.shutdown: ev("late"); rosfake.S.shutdown = True; ev("down")
        if now > 2e9: s.dead = True
    s.on_time = on_time
    s.spawn(ctor, "c")
    for k, ms in enumerate(plan["writers"]): s.spawn(writer(ms, plan["pause"]), k + 1)
    for k, bs in enumerate(plan["readers"]): s.spawn(reader(bs, plan["pause"]), len(plan["writers"]) + k + 1)
    if plan["down"] is not None: s.spawn(down, 0)
    ok = s.run()
    for t in s.ts:
        if t.exc is not None: print("thread", t.name, repr(t.exc)); os._exit(97)
    ev("end", stuck=not ok, whole=all(value(o) == m for m, o in sent))
    return ok

# locks mark
_acq = coop.Lock.acquire
def acquire(self, *a, **k):
    mark()
    return _acq(self, *a, **k)
coop.Lock.acquire = acquire
coop.Lock.__enter__ = lambda self: (self.acquire(), True)[1]

def plan_random(R):
    nw, nr = R.choice([0, 1, 1, 2, 2, 3]), R.choice([0, 1, 2, 2, 3])
    ms, ws = 0, []
    for _ in range(nw):
        n = R.choice([1, 1, 2, 3, 5]); ws.append(list(range(ms + 1, ms + n + 1))); ms += n
    rs = [[R.random() < .5 for _ in range(R.choice([1, 2, 3]))] for _ in range(nr)]
    cb = R.choice([None, "plain", "plain", "raises"])
    return dict(cb=cb, wait=R.random() < .4, writers=ws, readers=rs, raising=[m for m in range(1, ms + 1) if R.random() < .4] if cb == "raises" else [],
                down=R.choice([None, None, None, 0.0, 0.02, 0.15]), pause=R.random() < .3)
def listener():
    R = rng(31)
    for l in gen_lines():                      # histories of the model
        w, blk, h = tla(l)
        cb = R.choice([None, "plain", "plain", "raises"])
        p = dict(cb=cb, wait=False, writers=[[k + 1] for k in range(w)], readers=[[b == 1] for b in blk], raising=[R.randrange(1, w + 1)] if cb == "raises" else [], down=0.0 if 0 in h else None, pause=False)
        scenario(guided(h, R), p, False, R)
    for it in range(scale(600, 6000)):
        scenario(coop.randomly(R, R.choice([.02, .1, .3, .6]), R.choice([.02, .2])), plan_random(R), R.random() < .4, R)
    # every schedule with at most one (two) switches by force
    for p in (dict(cb="plain", wait=False, writers=[[1], [2]], readers=[[True]], down=None, pause=False),
              dict(cb="plain", wait=False, writers=[[1, 2]], readers=[[False, False]], down=None, pause=False),
              dict(cb="plain", wait=True, writers=[[1], [2]], readers=[], down=None, pause=False),
              dict(cb="raises", wait=False, writers=[[1], [2]], readers=[[True]], raising=[1], down=None, pause=False),
              dict(cb=None, wait=False, writers=[[1]], readers=[[True], [False]], down=0.0, pause=False)):
        sy = coop.Systematic(scale(1, 2)); n = 0
        while not sy.done and n < scale(300, 6000):
            sy.start(); scenario(sy, p, False, R); sy.next(); n += 1
main(dict(listener=listener))
