"""Reference definitions: small utilities."""
import numpy as np


def normalize(Y):
    lo, hi = np.min(Y), np.max(Y)
    if hi == lo:
        return Y
    return 10.0 * (Y - lo) / (hi - lo)


def best_by_history(X, Y):
    i = np.argmin(Y[:, 0])
    return X[i], Y[i, 0]


def hyps_vector(hyps, use_gp, fix_noise):
    out = []
    if not fix_noise:
        out.append(hyps['noise'])
    if not use_gp:
        out.append(hyps['dof'])
    out.append(hyps['signal'])
    if isinstance(hyps['lengthscales'], np.ndarray):
        return np.concatenate((np.array(out), hyps['lengthscales']))
    out.append(hyps['lengthscales'])
    return np.array(out)


def ranges(dim, use_gp, use_ard, fix_noise):
    out = []
    if not fix_noise:
        out.append([1e-3, 10.0])
    if not use_gp:
        out.append([2.00001, 200.0])
    out.append([1e-2, 1e3])
    if use_ard:
        out = out + [[1e-2, 1e3] for _ in range(dim)]
    else:
        out.append([1e-2, 1e3])
    return np.array(out)


def default_hyps(dim, use_gp, use_ard):
    h = {'noise': 0.01, 'signal': 1.0}
    if not use_gp:
        h['dof'] = 5.0
    h['lengthscales'] = np.ones(dim) if use_ard else 1.0
    return h


def converged(prev, hyps, fix_noise, ratio=0.05):
    a = hyps_vector(hyps, True, fix_noise)
    b = hyps_vector(prev, True, fix_noise)
    return np.sqrt(np.sum((a - b) ** 2)) < ratio * np.sqrt(np.sum(b ** 2))


def in_bounds(points, bounds):
    return np.all(points >= bounds[:, 0]) and np.all(points <= bounds[:, 1])


def time_curve(T):
    """mean over rounds of the cumulated time, starting at zero"""
    return np.concatenate((np.zeros(1), np.cumsum(np.mean(T, axis=0))))


def best_so_far(Y, num_init):
    out = []
    for y in Y:
        best = np.min(y[:num_init])
        row = [best]
        for v in y[num_init:]:
            best = min(best, v)
            row.append(best)
        out.append(row)
    M = np.array(out)
    R = Y.shape[0]
    mean = np.mean(M, axis=0)
    std = np.std(M, axis=0, ddof=1) if R > 1 else np.zeros(M.shape[1])
    return M, mean, std, std / np.sqrt(R)


def best_prefix(Y, num_init):
    return np.array([[np.min(y[:num_init + t]) for t in range(Y.shape[1] - num_init + 1)] for y in Y])


def times(T, num_init, include_init):
    U = T[:, num_init:] if include_init else T
    return np.mean(np.array([np.concatenate((np.zeros(1), np.cumsum(t))) for t in U]), axis=0)


def clipped_deviation(S):
    """square root of the variances on the diagonal, clipped at zero, as a column"""
    return np.sqrt(np.maximum(np.diag(S), 0.0))[:, np.newaxis]


def mixture_deviation(mu, sd, least=0.0):
    """deviation of the uniform mixture of components (mean, deviation)"""
    s = np.maximum(sd, least)
    return np.sqrt(np.maximum(np.mean(mu ** 2 + s ** 2) - np.mean(mu) ** 2, 0.0))
