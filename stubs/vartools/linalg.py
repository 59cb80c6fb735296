import numpy as np


def get_orthogonal_basis(vector, normalize=True):
    """Orthonormal basis whose first column is the (normalized) vector."""
    vector = np.array(vector)
    norm = np.linalg.norm(vector)
    if not norm:
        raise ValueError("Zero vector has no orthogonal basis.")
    if normalize:
        vector = vector / norm
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 2:
        basis[0, 1] = vector[1]
        basis[1, 1] = -vector[0]
        return basis
    if dim == 3:
        if vector[0] or vector[1]:
            lateral = np.array([vector[1], -vector[0], 0.0])
        else:
            lateral = np.array([1.0, 0.0, 0.0])
        basis[:, 1] = lateral / np.linalg.norm(lateral)
        basis[:, 2] = np.cross(basis[:, 0], basis[:, 1])
        return basis
    q, r = np.linalg.qr(np.hstack([vector.reshape(-1, 1), np.eye(dim)]))
    q = q[:, :dim]
    return q * np.sign(np.where(np.diag(r[:, :dim]) == 0, 1, np.diag(r[:, :dim])))
