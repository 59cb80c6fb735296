from vartools.dynamical_systems import DynamicalSystem, LinearSystem, ConstantValue


class Dynamics(DynamicalSystem):
    pass


class WavyRotatedDynamics(Dynamics):
    pass
