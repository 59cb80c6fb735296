class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment


class ModulationAvoider(BaseAvoider):
    pass
