"""Reference definitions: covariance functions (read by the analyser, never executed)."""
import numpy as np


def sqdist(X, Xp, ls):
    Z = (X[:, np.newaxis, :] - Xp[np.newaxis, :, :]) / ls
    return np.sum(Z ** 2, axis=2)


def se(X, Xp, ls, signal):
    return signal ** 2 * np.exp(-sqdist(X, Xp, ls) / 2)


def matern32(X, Xp, ls, signal):
    r = np.sqrt(3 * sqdist(X, Xp, ls))
    return signal ** 2 * (1 + r) * np.exp(-r)


def matern52(X, Xp, ls, signal):
    r2 = 5 * sqdist(X, Xp, ls)
    r = np.sqrt(r2)
    return signal ** 2 * (1 + r + r2 / 3) * np.exp(-r)


def base(name, X, Xp, ls, signal):
    if name == 'matern32':
        return matern32(X, Xp, ls, signal)
    if name == 'matern52':
        return matern52(X, Xp, ls, signal)
    return se(X, Xp, ls, signal)


def main(name, X, Xp, hyps, same_X_Xp, jitter=1e-5):
    if name[:4] == 'set_':
        A = X[:, np.newaxis, :, np.newaxis, :]
        B = Xp[np.newaxis, :, np.newaxis, :, :]
        s2 = np.sum(((A - B) / hyps['lengthscales']) ** 2, axis=4)
        if name == 'set_matern32':
            r = np.sqrt(3 * s2)
            K = hyps['signal'] ** 2 * (1 + r) * np.exp(-r)
        elif name == 'set_matern52':
            r = np.sqrt(5 * s2)
            K = hyps['signal'] ** 2 * (1 + r + 5 * s2 / 3) * np.exp(-r)
        else:
            K = hyps['signal'] ** 2 * np.exp(-s2 / 2)
        K = np.sum(np.sum(K, axis=3), axis=2) / (X.shape[1] * Xp.shape[1])
    else:
        K = base(name, X, Xp, hyps['lengthscales'], hyps['signal'])
    if same_X_Xp:
        K = K + jitter * np.eye(X.shape[0])
    return K


def set_value(name, X, Xp, ls, signal):
    return np.mean(base(name, X, Xp, ls, signal))
