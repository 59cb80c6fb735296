def evaluate_linear_dynamical_system(*args, **kwargs):
    raise NotImplementedError()
