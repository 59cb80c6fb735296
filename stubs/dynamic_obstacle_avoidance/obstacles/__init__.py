import numpy as np

from vartools.states import Pose


class Obstacle:
    def __init__(self, center_position=None, orientation=None, pose=None, linear_velocity=None, angular_velocity=None,
                 margin_absolut=0.0, is_boundary=False, distance_scaling=1.0, tail_effect=True, reactivity=1.0,
                 name="", **kwargs):
        if pose is None:
            if center_position is None:
                center_position = np.zeros(2)
            center_position = np.array(center_position)
            if orientation is None and center_position.shape[0] == 2:
                orientation = 0.0
            pose = Pose(center_position, orientation)
        self.pose = pose
        self.linear_velocity = linear_velocity
        self.angular_velocity = angular_velocity
        self.margin_absolut = margin_absolut
        self.is_boundary = is_boundary
        self.distance_scaling = distance_scaling
        self.tail_effect = tail_effect
        self.reactivity = reactivity
        self.name = name
        self._relative_reference_point = np.zeros(self.pose.dimension)

    @property
    def dimension(self):
        return self.pose.dimension

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = value

    @property
    def position(self):
        return self.pose.position

    @position.setter
    def position(self, value):
        self.pose.position = value

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._relative_reference_point)

    def get_reference_point(self, in_global_frame=False):
        if in_global_frame:
            return self.global_reference_point
        return self._relative_reference_point

    def set_reference_point(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._relative_reference_point = np.array(position)

    def get_reference_direction(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        direction = self._relative_reference_point - position
        norm = np.linalg.norm(direction)
        if norm:
            direction = direction / norm
        else:
            direction = np.zeros(direction.shape)
            direction[0] = 1.0
        if in_global_frame:
            direction = self.pose.transform_direction_from_relative(direction)
        return direction

    def transform_global2relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_relative2global(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_global2relative_dir(self, direction):
        return self.pose.transform_direction_to_relative(direction)

    def transform_relative2global_dir(self, direction):
        return self.pose.transform_direction_from_relative(direction)


class Ellipse(Obstacle):
    """Ellipse; gamma = (distance / local radius) (inverse inside a boundary)."""

    def __init__(self, axes_length=None, **kwargs):
        Obstacle.__init__(self, **kwargs)
        if axes_length is None:
            axes_length = np.ones(self.pose.dimension)
        self.axes_length = np.array(axes_length)

    def _semiaxes(self):
        return self.axes_length * 0.5 + self.margin_absolut

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        gamma = np.linalg.norm(position / self._semiaxes())
        if self.is_boundary:
            if not gamma:
                return 1e6
            return 1.0 / gamma
        return gamma

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        normal = position / self._semiaxes() ** 2
        norm = np.linalg.norm(normal)
        if norm:
            normal = normal / norm
        else:
            normal = np.zeros(normal.shape)
            normal[0] = 1.0
        if self.is_boundary:
            normal = normal * (-1)
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def get_intersection_with_surface(self, start_position=None, direction=None, in_global_frame=False, **kwargs):
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        semi = self._semiaxes()
        pos = start_position / semi
        dir_ = direction / semi
        aa = np.dot(dir_, dir_)
        bb = 2 * np.dot(pos, dir_)
        cc = np.dot(pos, pos) - 1
        disc = bb * bb - 4 * aa * cc
        if disc < 0:
            return None
        fac = (-bb + np.sqrt(disc)) / (2 * aa)
        point = start_position + fac * direction
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_local_radius(self, position, in_global_frame=False):
        """distance from the centre to the surface in the direction of the position"""
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return np.linalg.norm(position) / np.linalg.norm(position / self._semiaxes())


EllipseWithAxes = Ellipse


class CuboidXd(Obstacle):
    def __init__(self, axes_length=None, **kwargs):
        Obstacle.__init__(self, **kwargs)
        self.axes_length = np.array(axes_length)

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return np.max(np.abs(position) / (self.axes_length * 0.5 + self.margin_absolut))
