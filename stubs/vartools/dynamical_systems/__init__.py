import numpy as np

from vartools.dynamical_systems._base import DynamicalSystem
from vartools.dynamical_systems.linear import LinearSystem


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity, **kwargs):
        self.constant_velocity = np.array(velocity)
        DynamicalSystem.__init__(self, dimension=self.constant_velocity.shape[0])

    def evaluate(self, position):
        return self.constant_velocity


class LocallyRotated(DynamicalSystem):
    def __init__(self, max_rotation=None, influence_pose=None, influence_radius=1, attractor_position=None, **kwargs):
        DynamicalSystem.__init__(self, attractor_position=attractor_position)
        self.max_rotation = max_rotation
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius


class CircularStable(DynamicalSystem):
    pass


class AxesFollowingDynamics(DynamicalSystem):
    pass


def plot_dynamical_system(*args, **kwargs):
    raise NotImplementedError()
