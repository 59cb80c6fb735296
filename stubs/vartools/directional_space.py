import numpy as np

from vartools.linalg import get_orthogonal_basis
from vartools._angle import get_angle_from_vector, get_vector_from_angle


def get_angle_space(direction, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return get_angle_from_vector(direction, null_matrix)


def get_angle_space_inverse(dir_angle_space, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return get_vector_from_angle(dir_angle_space, null_matrix)


def get_angle_space_of_array(directions, positions=None, func_vel_default=None, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return np.array([get_angle_from_vector(directions[:, ii], null_matrix) for ii in range(directions.shape[1])]).T


def get_angle_space_inverse_of_array(vecs_angle_space, positions=None, func_vel_default=None, null_direction=None,
                                     null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return np.array(
        [get_vector_from_angle(vecs_angle_space[:, ii], null_matrix) for ii in range(vecs_angle_space.shape[1])]
    ).T


def get_directional_weighted_sum(null_direction, weights, directions, unit_directions=True, normalize=True,
                                 normalize_reference=True, total_weight=1):
    """Weighted mean of directions in the angle space of null_direction; unit length."""
    null_matrix = get_orthogonal_basis(null_direction)
    angle = np.zeros(null_matrix.shape[0] - 1)
    for ii in range(directions.shape[1]):
        if not weights[ii]:
            continue
        angle = angle + weights[ii] * get_angle_from_vector(directions[:, ii], null_matrix)
    return get_vector_from_angle(angle, null_matrix)


def get_directional_weighted_sum_from_unit_directions(*args, **kwargs):
    raise NotImplementedError()


class UnitDirection:
    def __init__(self, base):
        self.base = base
        self._angle = None

    def from_angle(self, angle):
        self._angle = np.array(angle)
        return self

    def from_vector(self, vector):
        self._angle = get_angle_from_vector(vector, self.base)
        return self

    def as_angle(self):
        return self._angle

    def as_vector(self):
        return get_vector_from_angle(self._angle, self.base)

    def norm(self):
        return np.linalg.norm(self._angle)

    @property
    def null_direction(self):
        return self.base[:, 0]


DirectionBase = UnitDirection
