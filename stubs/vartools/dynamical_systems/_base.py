import numpy as np


class DynamicalSystem:
    def __init__(self, pose=None, maximum_velocity=None, dimension=None, attractor_position=None, center_position=None):
        self.pose = pose
        self.maximum_velocity = maximum_velocity
        self.attractor_position = attractor_position
        if dimension is None:
            if attractor_position is not None:
                dimension = attractor_position.shape[0]
            elif pose is not None:
                dimension = pose.dimension
            else:
                dimension = 2
        self.dimension = dimension

    def limit_velocity(self, velocity, max_velocity=None):
        if max_velocity is None:
            if self.maximum_velocity is None:
                return velocity
            max_velocity = self.maximum_velocity
        mag_vel = np.linalg.norm(velocity)
        if mag_vel > max_velocity:
            velocity = velocity / mag_vel * max_velocity
        return velocity

    def evaluate(self, position):
        raise NotImplementedError()
