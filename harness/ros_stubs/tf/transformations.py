# the parts of Gohlke's transformations.py (as shipped in ROS tf) used here; quaternions are x, y, z, w
import math
import numpy
_EPS = numpy.finfo(float).eps * 4.0
def quaternion_matrix(quaternion):
    q = numpy.array(quaternion[:4], dtype=numpy.float64, copy=True)
    nq = numpy.dot(q, q)
    if nq < _EPS:
        return numpy.identity(4)
    q *= math.sqrt(2.0 / nq)
    q = numpy.outer(q, q)
    return numpy.array((
        (1.0 - q[1, 1] - q[2, 2], q[0, 1] - q[2, 3], q[0, 2] + q[1, 3], 0.0),
        (q[0, 1] + q[2, 3], 1.0 - q[0, 0] - q[2, 2], q[1, 2] - q[0, 3], 0.0),
        (q[0, 2] - q[1, 3], q[1, 2] + q[0, 3], 1.0 - q[0, 0] - q[1, 1], 0.0),
        (0.0, 0.0, 0.0, 1.0)), dtype=numpy.float64)
def quaternion_from_matrix(matrix):
    q = numpy.empty((4,), dtype=numpy.float64)
    M = numpy.array(matrix, dtype=numpy.float64, copy=False)[:4, :4]
    t = numpy.trace(M)
    if t > M[3, 3]:
        q[3] = t
        q[2] = M[1, 0] - M[0, 1]
        q[1] = M[0, 2] - M[2, 0]
        q[0] = M[2, 1] - M[1, 2]
    else:
        i, j, k = 0, 1, 2
        if M[1, 1] > M[0, 0]: i, j, k = 1, 2, 0
        if M[2, 2] > M[i, i]: i, j, k = 2, 0, 1
        t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
        q[i] = t
        q[j] = M[i, j] + M[j, i]
        q[k] = M[k, i] + M[i, k]
        q[3] = M[k, j] - M[j, k]
    q *= 0.5 / math.sqrt(t * M[3, 3])
    return q
def quaternion_multiply(q1, q0):
    x0, y0, z0, w0 = q0
    x1, y1, z1, w1 = q1
    return numpy.array((x1 * w0 + y1 * z0 - z1 * y0 + w1 * x0, -x1 * z0 + y1 * w0 + z1 * x0 + w1 * y0,
                        x1 * y0 - y1 * x0 + z1 * w0 + w1 * z0, -x1 * x0 - y1 * y0 - z1 * z0 + w1 * w0), dtype=numpy.float64)
def quaternion_from_euler(ai, aj, ak, axes='sxyz'):
    assert axes == 'sxyz'
    qx = (math.sin(ai / 2), 0, 0, math.cos(ai / 2)); qy = (0, math.sin(aj / 2), 0, math.cos(aj / 2)); qz = (0, 0, math.sin(ak / 2), math.cos(ak / 2))
    return quaternion_multiply(qz, quaternion_multiply(qy, qx))
def unit_vector(data, axis=None, out=None):
    d = numpy.array(data, dtype=numpy.float64, copy=True); return d / math.sqrt(numpy.dot(d, d))
def quaternion_inverse(q): return numpy.array((-q[0], -q[1], -q[2], q[3])) / numpy.dot(q, q)
quaternion_conjugate = lambda q: numpy.array((-q[0], -q[1], -q[2], q[3]))
def inverse_matrix(m): return numpy.linalg.inv(m)
def translation_matrix(d): m = numpy.identity(4); m[:3, 3] = d[:3]; return m
def concatenate_matrices(*ms):
    m = numpy.identity(4)
    for k in ms: m = numpy.dot(m, k)
    return m
def translation_from_matrix(m): return numpy.array(m)[:3, 3].copy()
