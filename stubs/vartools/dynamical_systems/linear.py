import numpy as np

from vartools.dynamical_systems._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    def __init__(self, attractor_position=None, A_matrix=None, maximum_velocity=None, dimension=None,
                 distance_decrease=None, baseVelocity=None, factor=1.0):
        if attractor_position is None:
            attractor_position = np.zeros(2 if dimension is None else dimension)
        DynamicalSystem.__init__(
            self, maximum_velocity=maximum_velocity, dimension=dimension, attractor_position=attractor_position
        )
        self.A_matrix = A_matrix
        self.distance_decrease = distance_decrease
        self.factor = factor

    def evaluate(self, position, max_vel=None):
        delta = position - self.attractor_position
        if self.A_matrix is None:
            velocity = delta * (-1.0) * self.factor
        else:
            velocity = self.A_matrix @ delta
        return self.limit_velocity(velocity, max_vel)
