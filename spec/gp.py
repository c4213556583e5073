"""Reference definitions: training covariance, posterior, likelihood objectives."""
import numpy as np
import scipy.linalg
import scipy.special
import scipy.optimize
from spec import misc
from bayeso import covariance


def training_cov(X, hyps, name):
    K = covariance.cov_main(name, X, X, hyps, True)
    K = (K + K.T) / 2
    return K + hyps['noise'] ** 2 * np.eye(X.shape[0])


def gradient(X, hyps, name, fix_noise):
    return covariance.grad_cov_main(name, X, X, hyps, fix_noise)


def kernel_inverse(X, hyps, name, fix_noise, use_gradient):
    K = training_cov(X, hyps, name)
    G = None
    if use_gradient:
        G = gradient(X, hyps, name, fix_noise)
    return K, np.linalg.inv(K), G


def kernel_cholesky(X, hyps, name, fix_noise, use_gradient):
    K = training_cov(X, hyps, name)
    found = False
    L = None
    C = None
    for j in [0.0, 1e-4, 1e-2, 1e-1, 1e0, 1e1, 1e2]:
        if not found:
            try:
                C = K + j * np.eye(X.shape[0])
                L = scipy.linalg.cholesky(C, lower=True)
                found = True
            except np.linalg.LinAlgError:
                pass
    if not found:
        raise ValueError('not positive definite')
    G = None
    if use_gradient:
        G = gradient(X, hyps, name, fix_noise)
    return C, L, G


def prior(mu, X):
    if mu is None:
        return np.zeros((X.shape[0], 1))
    return mu(X)


def cross(name, X, Xs, hyps):
    return covariance.cov_main(name, X, Xs, hyps, False)


def testcov(name, Xs, hyps):
    K = covariance.cov_main(name, Xs, Xs, hyps, True)
    return (K + K.T) / 2


def gp_predict(X, Y, Xs, Kinv, hyps, name, mu):
    k = cross(name, X, Xs, hyps)
    m = prior(mu, Xs) + k.T @ (Kinv @ (Y - prior(mu, X)))
    S = testcov(name, Xs, hyps) - k.T @ (Kinv @ k)
    sd = np.sqrt(np.maximum(np.diag(S), 0.0))[:, np.newaxis]
    return m, sd, S


def gp_predict_hyps(X, Y, Xs, hyps, name, mu):
    K = training_cov(X, hyps, name)
    return gp_predict(X, Y, Xs, np.linalg.inv(K), hyps, name, mu)


def tp_predict(X, Y, Xs, Kinv, hyps, name, mu):
    k = cross(name, X, Xs, hyps)
    r = Y - prior(mu, X)
    nu = hyps['dof']
    beta = np.sum(r * (Kinv @ r))
    m = prior(mu, Xs) + k.T @ (Kinv @ r)
    S = (nu - 2.0 + beta) / (nu - 2.0 + X.shape[0]) * (testcov(name, Xs, hyps) - k.T @ (Kinv @ k))
    sd = np.sqrt(np.maximum(np.diag(S), 0.0))[:, np.newaxis]
    return nu + X.shape[0], m, sd, S


def tp_predict_hyps(X, Y, Xs, hyps, name, mu):
    K = training_cov(X, hyps, name)
    return tp_predict(X, Y, Xs, np.linalg.inv(K), hyps, name, mu)


def vec_to_hyps(v, dof, use_ard, fix_noise, noise=0.01):
    h = {}
    p = 0
    if fix_noise:
        h['noise'] = noise
    else:
        h['noise'] = v[0]
        p = 1
    if dof:
        h['dof'] = v[p]
        p = p + 1
    h['signal'] = v[p]
    h['lengthscales'] = v[p + 1:] if use_ard else v[p + 1]
    return h


def gp_nll_chol(X, Y, v, name, mu, use_ard, fix_noise, use_gradient):
    n = X.shape[0]
    h = vec_to_hyps(v, False, use_ard, fix_noise)
    C, L, G = covariance.get_kernel_cholesky(X, h, name, fix_noise=fix_noise, use_gradient=use_gradient)
    r = Y - mu
    a = scipy.linalg.cho_solve((L, True), r)
    val = (0.5 * np.sum(r * a) + np.sum(np.log(np.diag(L) + 1e-7)) + 0.5 * n * np.log(2 * np.pi)) / n
    if not use_gradient:
        return val
    W = a @ a.T - scipy.linalg.cho_solve((L, True), np.eye(n))
    g = -0.5 * np.sum(np.sum(W[:, :, np.newaxis] * G, axis=0), axis=0) / n
    return val, g


def gp_nll_inv(X, Y, v, name, mu, use_ard, fix_noise):
    n = X.shape[0]
    h = vec_to_hyps(v, False, use_ard, fix_noise)
    C, Ci, _ = covariance.get_kernel_inverse(X, h, name, fix_noise=fix_noise)
    r = Y - mu
    sg, ld = np.linalg.slogdet(C)
    if sg <= 0:
        ld = 0.0
    return (0.5 * np.sum(r * (Ci @ r)) + 0.5 * ld + 0.5 * n * np.log(2 * np.pi)) / n


def gp_loo(X, Y, v, name, mu, use_ard, fix_noise):
    """minus the mean log density of each response under the model of the others"""
    n = X.shape[0]
    h = vec_to_hyps(v, False, use_ard, fix_noise)
    _, Ci, _ = covariance.get_kernel_inverse(X, h, name, fix_noise=fix_noise)
    r = Y - mu
    dg = np.diag(Ci)
    res = (Ci @ r)[:, 0] / dg
    var = 1.0 / (dg + 1e-5)
    return np.sum(0.5 * np.log(var) + 0.5 * res ** 2 / var + 0.5 * np.log(2 * np.pi)) / n


def tp_nll(X, Y, v, name, mu, use_ard, fix_noise, use_gradient, half):
    n = X.shape[0]
    h = vec_to_hyps(v, True, use_ard, fix_noise)
    nu = h['dof']
    C, Ci, G = covariance.get_kernel_inverse(X, h, name, fix_noise=fix_noise, use_gradient=use_gradient)
    r = Y - mu
    a = Ci @ r
    beta = np.sum(r * a)
    sg, ld = np.linalg.slogdet(C)
    if sg <= 0:
        ld = 0.0
    ll = (-0.5 * n * np.log((nu - 2.0) * np.pi) - 0.5 * ld + scipy.special.gammaln((nu + n) / 2) - scipy.special.gammaln(nu / 2)
          - 0.5 * (nu + n) * np.log(1 + beta / (nu - 2.0)))
    if not use_gradient:
        return -ll / n
    W = (nu + n) / (nu + beta - 2.0) * (a @ a.T) - Ci
    gk = 0.5 * np.sum(np.sum(W[:, :, np.newaxis] * G, axis=0), axis=0)
    gn = (-n / (2.0 * (nu - 2.0)) + half * scipy.special.digamma((nu + n) / 2) - half * scipy.special.digamma(nu / 2)
          - 0.5 * np.log(1 + beta / (nu - 2.0)) + 0.5 * (nu + n) * beta / ((nu - 2.0) * (nu - 2.0 + beta)))
    if fix_noise:
        g = np.concatenate((np.array([gn]), gk))
    else:
        g = np.concatenate((gk[:1], np.array([gn]), gk[1:]))
    return -ll / n, -g / n


def gp_fit(X, Y, mu, name, method, selection, use_ard, fix_noise, dim):
    m = prior(mu, X)
    grad = method != 'Nelder-Mead' and name[:4] != 'set_' and selection == 'ml'

    def objective(v):
        if selection == 'ml':
            return gp_nll_chol(X, Y, v, name, m, use_ard, fix_noise, grad)
        return gp_loo(X, Y, v, name, m, use_ard, fix_noise)
    x0 = misc.hyps_vector(misc.default_hyps(dim, True, use_ard), True, fix_noise)
    if method == 'L-BFGS-B':
        r = scipy.optimize.minimize(objective, x0, method=method, bounds=misc.ranges(dim, True, use_ard, fix_noise), jac=grad)
    elif method == 'SLSQP-Bounded':
        r = scipy.optimize.minimize(objective, x0, method='SLSQP', bounds=misc.ranges(dim, True, use_ard, fix_noise), jac=grad)
    else:
        r = scipy.optimize.minimize(objective, x0, method=method, jac=grad)
    h = vec_to_hyps(r.x, False, use_ard, fix_noise)
    C, Ci, _ = covariance.get_kernel_inverse(X, h, name, fix_noise=fix_noise)
    return C, Ci, h


def tp_fit(X, Y, mu, name, method, use_ard, fix_noise, dim):
    m = prior(mu, X)

    def objective(v):
        return tp_nll(X, Y, v, name, m, use_ard, fix_noise, False, 0.5)
    x0 = misc.hyps_vector(misc.default_hyps(dim, False, use_ard), False, fix_noise)
    r = scipy.optimize.minimize(objective, x0, method=method, bounds=misc.ranges(dim, False, use_ard, fix_noise))
    h = vec_to_hyps(r.x, True, use_ard, fix_noise)
    if h['dof'] <= 2.0:
        h['dof'] = 2.00001
    C, Ci, _ = covariance.get_kernel_inverse(X, h, name, fix_noise=fix_noise)
    return C, Ci, h
