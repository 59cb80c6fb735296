import numpy as np


def get_angle_from_vector(direction, base):
    """Direction -> angle space of dimension D-1 relative to base[:, 0]."""
    transformed = base.T @ (direction / np.linalg.norm(direction))
    angle = transformed[1:]
    norm = np.linalg.norm(angle)
    if not norm:
        if transformed[0] < 0:
            angle = np.zeros(angle.shape)
            angle[0] = np.pi
            return angle
        return np.zeros(angle.shape)
    return angle / norm * np.arctan2(norm, transformed[0])


def get_vector_from_angle(angle, base):
    norm = np.linalg.norm(angle)
    if not norm:
        return base[:, 0].copy()
    return base @ np.hstack((np.cos(norm), angle / norm * np.sin(norm)))
