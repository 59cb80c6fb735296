def plot_obstacles(*args, **kwargs):
    raise NotImplementedError()


def plot_obstacle_dynamics(*args, **kwargs):
    raise NotImplementedError()
