# A transform tree shared by every broadcaster and buffer of the process (what /tf and /tf_static are in ROS).
import threading, copy
import numpy as np
import rosfake
from tf.transformations import quaternion_matrix, quaternion_from_matrix
class TransformException(Exception): pass
class LookupException(TransformException): pass
class ConnectivityException(TransformException): pass
class ExtrapolationException(TransformException): pass
class InvalidArgumentException(TransformException): pass
class TimeoutException(TransformException): pass
class World:
    def __init__(self):
        self.lock = threading.RLock(); self.frames = {}; self.static = {}; self.hook = None; self.on_send = None; self.net = None
world = World()
def _mat(t):
    r = t.transform.rotation; m = quaternion_matrix([r.x, r.y, r.z, r.w]); p = t.transform.translation
    m[:3, 3] = [p.x, p.y, p.z]; return m
def _put(t, static):
    if world.net is not None: world.net.append((t.header.frame_id, t.child_frame_id, _mat(t), t.header.stamp, static))    # received later, in order
    else: receive(t.header.frame_id, t.child_frame_id, _mat(t), t.header.stamp, static)
def receive(parent, child, m, stamp, static):
    m.setflags(write=False)
    with world.lock:
        (world.static if static else world.frames)[child] = (parent, m, stamp)
        if world.hook: world.hook(parent, child, m, static)
class TransformBroadcaster:
    def sendTransform(self, t):
        ts = list(t) if isinstance(t, (list, tuple)) else [t]
        if world.on_send: world.on_send(ts, False)
        for k in ts: _put(k, False)
class StaticTransformBroadcaster:
    def sendTransform(self, t):
        ts = list(t) if isinstance(t, (list, tuple)) else [t]
        if world.on_send: world.on_send(ts, True)
        for k in ts: _put(k, True)
class Buffer:
    def __init__(self, *a, **k): pass
    def _chain(self, frame):
        out = [(frame, np.identity(4))]; m = np.identity(4); seen = {frame}
        with world.lock:
            while True:
                e = world.frames.get(frame) or world.static.get(frame)
                if e is None or e[0] in seen: return out
                frame = e[0]; m = e[1] @ m; seen.add(frame); out.append((frame, m))
    def _find(self, target, source):
        a, b = self._chain(target), self._chain(source)
        for f, m in b:
            for g, n in a:
                if f == g: return np.linalg.inv(n) @ m
        return None
    def can_transform(self, target_frame, source_frame, time=None, timeout=None, return_debug_tuple=False):
        if self._find(target_frame, source_frame) is not None: return True
        import time as t
        t.sleep(min(0.02, timeout.to_sec()) if timeout is not None else 0)
        return self._find(target_frame, source_frame) is not None
    def lookup_transform(self, target_frame, source_frame, time=None, timeout=None):
        m = self._find(target_frame, source_frame)
        if m is None: raise LookupException("no %s to %s" % (target_frame, source_frame))
        from geometry_msgs.msg import TransformStamped
        t = TransformStamped(); t.header.frame_id = target_frame; t.child_frame_id = source_frame
        q = quaternion_from_matrix(m)
        t.transform.translation.x, t.transform.translation.y, t.transform.translation.z = [float(v) for v in m[:3, 3]]
        t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w = [float(v) for v in q]
        return t
    def transform(self, object_stamped, target_frame, timeout=None, new_type=None): return ("transformed", object_stamped, target_frame, timeout, new_type)
class TransformListener:
    def __init__(self, buffer, *a, **k): self.buffer = buffer
