import numpy as np


def get_weight_from_inv_of_gamma(gamma_array, gamma_cutoff=None, power_factor=1, dist_margin=0):
    """Inverse-distance weights; an obstacle in contact (gamma <= 1) takes everything."""
    weights = np.zeros(gamma_array.shape)
    ind_contact = gamma_array <= 1
    if np.sum(ind_contact):
        weights[ind_contact] = 1.0 / np.sum(ind_contact)
        return weights
    weights = (1.0 / (gamma_array - 1)) ** power_factor
    sum_weights = np.sum(weights)
    if sum_weights > 1:
        weights = weights / sum_weights
    return weights


def compute_weights(distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2):
    """Weights from distance measures (gamma); sum 1, contact takes everything."""
    distMeas = np.array(distMeas)
    n_points = distMeas.shape[0]
    critical_points = distMeas <= distMeas_lowerLimit
    if np.sum(critical_points):
        if np.sum(critical_points) == 1:
            w = critical_points * 1.0
            return w
        w = critical_points * 1.0 / np.sum(critical_points)
        return w
    distMeas = distMeas - distMeas_lowerLimit
    w = (1 / distMeas) ** weightPow
    if np.sum(w) == 0:
        return w
    w = w / np.sum(w)
    return w


def get_relative_obstacle_velocity(position, obstacle_list, E_orth, weights, ind_obstacles=None, gamma_list=None, **kwargs):
    """Weighted mean velocity of the (close) obstacles at the position."""
    xd_obs = np.zeros(position.shape)
    ii = 0
    for it, obs in enumerate(obstacle_list):
        if ind_obstacles is not None and not ind_obstacles[it]:
            continue
        if obs.linear_velocity is not None:
            xd_obs = xd_obs + weights[ii] * obs.linear_velocity
        ii += 1
    return xd_obs
