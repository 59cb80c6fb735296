from enum import Enum, auto
import numpy as np


class IntersectionType(Enum):
    CLOSE = auto()
    FAR = auto()
    BOTH = auto()


CircleIntersectionType = IntersectionType


def get_intersection_with_circle(
    start_position,
    direction,
    radius,
    only_positive=True,
    intersection_type=None,
):
    """Intersection(s) of the line start + s * direction with the origin-centred circle."""
    AA = np.sum(direction**2)
    BB = 2 * np.dot(direction, start_position)
    CC = np.sum(start_position**2) - radius**2
    DD = BB * BB - 4 * AA * CC

    if DD < 0:
        return None

    if intersection_type == IntersectionType.BOTH:
        fac1 = (-BB - np.sqrt(DD)) / (2 * AA)
        fac2 = (-BB + np.sqrt(DD)) / (2 * AA)
        return np.vstack(
            (start_position + fac1 * direction, start_position + fac2 * direction)
        ).T
    if intersection_type == IntersectionType.CLOSE:
        fac = (-BB - np.sqrt(DD)) / (2 * AA)
        return start_position + fac * direction
    if intersection_type == IntersectionType.FAR:
        fac = (-BB + np.sqrt(DD)) / (2 * AA)
        return start_position + fac * direction

    if only_positive:
        fac = (-BB + np.sqrt(DD)) / (2 * AA)
        return start_position + fac * direction
    fac1 = (-BB - np.sqrt(DD)) / (2 * AA)
    fac2 = (-BB + np.sqrt(DD)) / (2 * AA)
    return np.vstack((start_position + fac1 * direction, start_position + fac2 * direction)).T


def get_intersection_between_line_and_plane(
    line_position, line_direction, plane_position, plane_normal, positive_only=False
):
    denominator = np.dot(line_direction, plane_normal)
    if not denominator:
        return None
    fac = np.dot(plane_position - line_position, plane_normal) / denominator
    if positive_only and fac < 0:
        return None
    return line_position + fac * line_direction
