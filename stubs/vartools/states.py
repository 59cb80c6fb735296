import numpy as np


class Pose:
    def __init__(self, position, orientation=None):
        self.position = np.array(position)
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        if dimension == 2:
            return cls(np.zeros(dimension), 0.0)
        return cls(np.zeros(dimension), None)

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        cos_ = np.cos(self.orientation)
        sin_ = np.sin(self.orientation)
        return np.array([[cos_, -sin_], [sin_, cos_]])

    def transform_direction_from_relative(self, direction):
        if self.orientation is None:
            return direction
        if isinstance(self.orientation, (int, float)):
            return self.rotation_matrix @ direction
        return self.orientation.apply(direction)

    def transform_direction_to_relative(self, direction):
        if self.orientation is None:
            return direction
        if isinstance(self.orientation, (int, float)):
            return self.rotation_matrix.T @ direction
        return self.orientation.inv().apply(direction)

    def transform_position_from_relative(self, position):
        return self.transform_direction_from_relative(position) + self.position

    def transform_position_to_relative(self, position):
        return self.transform_direction_to_relative(position - self.position)

    transform_linear_velocity_from_relative = transform_direction_from_relative
    transform_linear_velocity_to_relative = transform_direction_to_relative

    def transform_orientation_from_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if orientation is None:
            return self.orientation
        if isinstance(self.orientation, (int, float)):
            return self.orientation + orientation
        return self.orientation * orientation

    def transform_orientation_to_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if isinstance(self.orientation, (int, float)):
            if orientation is None:
                return -self.orientation
            return orientation - self.orientation
        if orientation is None:
            return self.orientation.inv()
        return self.orientation.inv() * orientation

    def transform_pose_from_relative(self, pose):
        return Pose(
            self.transform_position_from_relative(pose.position),
            self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return Pose(
            self.transform_position_to_relative(pose.position),
            self.transform_orientation_to_relative(pose.orientation),
        )


ObjectPose = Pose


class Twist:
    def __init__(self, linear=None, angular=None):
        self.linear = linear
        self.angular = angular
