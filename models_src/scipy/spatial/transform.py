"""Specification of scipy.spatial.transform.Rotation (the used part): unit quaternions (x, y, z, w).
Read by the verifier in place of the compiled scipy implementation; the concrete runs use scipy itself."""
import numpy as np


class Rotation:
    def __init__(self, quat, matrix=None):
        self._q = quat
        self._m = matrix

    @classmethod
    def from_quat(cls, quat):
        quat = np.array(quat)
        norm = np.linalg.norm(quat)
        if norm == 0:
            raise ValueError("Found zero norm quaternions in `quat`.")
        return cls(quat / norm)

    @classmethod
    def from_matrix(cls, matrix):
        """of a right-handed orthonormal matrix"""
        return cls(None, np.array(matrix))

    def as_matrix(self):
        if self._m is not None:
            return self._m
        x, y, z, w = self._q[0], self._q[1], self._q[2], self._q[3]
        return np.array([
            [w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), w * w + y * y - x * x - z * z, 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), w * w + z * z - x * x - y * y]])

    @classmethod
    def identity(cls):
        return cls(np.array([0.0, 0.0, 0.0, 1.0]))

    def as_quat(self):
        return self._q

    def inv(self):
        if self._m is not None:
            return Rotation(None, self._m.T)
        q = self._q
        return Rotation(np.array([-q[0], -q[1], -q[2], q[3]]))

    def apply(self, vector):
        vector = np.array(vector)
        if self._m is not None:
            return self._m @ vector
        q = self._q
        u = np.array([q[0], q[1], q[2]])
        t = 2 * np.cross(u, vector)
        return vector + q[3] * t + np.cross(u, t)

    def __mul__(self, other):
        if self._m is not None or other._m is not None:
            return Rotation(None, self.as_matrix() @ other.as_matrix())
        a, b = self._q, other._q
        return Rotation(np.array([
            a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
            a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
            a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
            a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]]))
