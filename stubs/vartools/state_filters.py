class PositionFilter:
    def __init__(self, *args, **kwargs):
        raise NotImplementedError()


class SimpleOrientationFilter:
    def __init__(self, *args, **kwargs):
        raise NotImplementedError()
