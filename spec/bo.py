"""Reference definitions: sampling, one optimisation call, whole runs."""
import numpy as np
import scipy.optimize
import scipy.stats.qmc
try:
    from scipydirect import minimize as directminimize
except ImportError:
    directminimize = None
try:
    import cma
except ImportError:
    cma = None
from spec import acq
from spec import misc
from spec import gp as rgp
from bayeso import covariance
from bayeso.gp import gp
from bayeso.gp import gp_kernel
from bayeso.gp import gp_likelihood
from bayeso.tp import tp
from bayeso.tp import tp_kernel
from bayeso.trees import trees_common
from bayeso.trees import trees_random_forest


def grid(R, N):
    """every combination of N equidistant values per dimension, the last dimension varying fastest after the first two are exchanged as meshgrid does"""
    d = R.shape[0]
    axes = [np.linspace(R[j, 0], R[j, 1], N) for j in range(d)]
    mesh = np.meshgrid(*axes)
    return np.vstack([q.flatten(order='C') for q in mesh]).T


def grid_order(R, N, order):
    """every combination of N equidistant values per dimension; the last dimension of `order` varies fastest"""
    d = R.shape[0]
    rows = np.arange(N ** d)
    cols = []
    for j in range(d):
        below = N ** (d - 1 - order.index(j))
        # base-N digit of the row number (the leading one needs no reduction)
        cols.append(np.array([np.linspace(R[j, 0], R[j, 1], N)[q // below - (0 if order.index(j) == 0 else N * (q // (N * below)))] for q in rows]))
    return np.stack(cols, axis=1)


def sample(R, method, N, seed):
    d = R.shape[0]
    if method == 'grid':
        return grid(R, N)
    if method == 'uniform':
        u = np.random.RandomState(seed).uniform(size=(N, d))
        return R[:, 0] + (R[:, 1] - R[:, 0]) * u
    if method == 'gaussian':
        z = np.random.RandomState(seed).randn(N, d)
        return np.clip((R[:, 0] + R[:, 1]) / 2 + (R[:, 1] - R[:, 0]) / 4 * z, R[:, 0], R[:, 1])
    if method == 'sobol':
        u = scipy.stats.qmc.Sobol(d, scramble=True, seed=seed).random(N)
    if method == 'halton':
        u = scipy.stats.qmc.Halton(d, scramble=True, seed=seed).random(N)
    return R[:, 0] + (R[:, 1] - R[:, 0]) * u


def acquisition(name, mean, std, Y, noise):
    if name == 'pi':
        return acq.pi(mean, std, Y)
    if name == 'ei':
        return acq.ei(mean, std, Y)
    if name == 'ucb':
        return acq.ucb(mean, std, Y)
    if name == 'aei':
        return acq.aei(mean, std, Y, noise)
    if name == 'pure_exploit':
        return acq.pure_exploit(mean)
    return acq.pure_explore(std)


def bounds(R):
    return [(R[j, 0], R[j, 1]) for j in range(R.shape[0])]


def candidates(score, R, optimizer, sampling, N, seed):
    if optimizer == 'L-BFGS-B':
        return np.array([scipy.optimize.minimize(score, x0=s, bounds=bounds(R), method='L-BFGS-B').x for s in sample(R, sampling, N, seed)])
    if optimizer == 'DIRECT':
        return np.array([directminimize(score, bounds=bounds(R)).x])
    start = sample(R, sampling, 1, seed)[0]
    return np.array([cma.fmin(lambda x: score(x)[0], start, 1.0, options={'bounds': [R[:, 0], R[:, 1]]})[0]])


def rows(x):
    return x[np.newaxis, :] if x.ndim == 1 else x


def gp_score(x, X, Z, C, Ci, hyps, name, acqn, mu):
    m, s, _ = gp.predict_with_cov(X, Z, rows(x), C, Ci, hyps, str_cov=name, prior_mu=mu)
    return -acquisition(acqn, m[:, 0], s[:, 0], Z, hyps['noise']) * 10.0


def tp_score(x, X, Z, C, Ci, hyps, name, acqn, mu):
    _, m, s, _ = tp.predict_with_cov(X, Z, rows(x), C, Ci, hyps, str_cov=name, prior_mu=mu)
    return -acquisition(acqn, m[:, 0], s[:, 0], Z, hyps['noise']) * 10.0


def rf_score(x, trees, Z, acqn):
    m, s = trees_common.predict_by_trees(rows(x), trees)
    return -acquisition(acqn, m[:, 0], s[:, 0], Z, 0.01) * 10.0


def gp_fit(X, Z, mu, name, fitm, selection, ard):
    return gp_kernel.get_optimized_kernel(X, Z, mu, name, str_optimizer_method=fitm, str_modelselection_method=selection, use_ard=ard)


def fit_better(X, Z, mu, name, selection, ard):
    """the better of two fits by marginal likelihood"""
    C1, I1, h1 = gp_fit(X, Z, mu, name, 'BFGS', selection, ard)
    C2, I2, h2 = gp_fit(X, Z, mu, name, 'Nelder-Mead', selection, ard)
    m = rgp.prior(mu, X)
    v1 = gp_likelihood.neg_log_ml(X, Z, misc.hyps_vector(h1, True, True), name, m, use_ard=ard, fix_noise=True, use_gradient=False)
    v2 = gp_likelihood.neg_log_ml(X, Z, misc.hyps_vector(h2, True, True), name, m, use_ard=ard, fix_noise=True, use_gradient=False)
    if v2 < v1:
        return C2, I2, h2
    return C1, I1, h1


def best(cand, vals):
    return cand[np.argmin(vals)]


def gp_optimize(R, X, Y, sampling, N, seed, name, acqn, norm, ard, mu, fitm, optimizer, selection, mode):
    Z = misc.normalize(Y) if norm and mode != 'converged' else Y
    if mode == 'combined':
        C, Ci, hyps = fit_better(X, Z, mu, name, selection, ard)
    else:
        C, Ci, hyps = gp_fit(X, Z, mu, name, fitm, selection, ard)
    return gp_propose(R, X, Y, Z, C, Ci, hyps, sampling, N, seed, name, acqn, mu, optimizer)


def gp_propose(R, X, Y, Z, C, Ci, hyps, sampling, N, seed, name, acqn, mu, optimizer):
    cand = candidates(lambda x: gp_score(x, X, Z, C, Ci, hyps, name, acqn, mu), R, optimizer, sampling, N, seed)
    vals = gp_score(cand, X, Z, C, Ci, hyps, name, acqn, mu)
    return best(cand, vals), {'next_points': cand, 'acquisitions': vals, 'Y_original': Y, 'Y_normalized': Z, 'cov_X_X': C, 'inv_cov_X_X': Ci, 'hyps': hyps}


def gp_reported(X, info, name, acqn, mu):
    """scores of the reported candidates under the reported model, and the best of them"""
    vals = gp_score(info['next_points'], X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps'], name, acqn, mu)
    return best(info['next_points'], vals), vals


def tp_reported(X, info, name, acqn, mu):
    vals = tp_score(info['next_points'], X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps'], name, acqn, mu)
    return best(info['next_points'], vals), vals


def rf_reported(X, info, acqn):
    vals = rf_score(info['next_points'], info['trees'], info['Y_normalized'], acqn)
    return best(info['next_points'], vals), vals


def reuse(X, hyps, name):
    C, Ci, _ = covariance.get_kernel_inverse(X, hyps, name, fix_noise=True)
    return C, Ci, hyps


def gp_history(data, modes, name, norm, ard, mu, fitm, selection):
    """a sequence of calls on one model: one fitting mode per call"""
    last = None
    done = False
    out = []
    for i in range(len(modes)):
        X, Y = data[i]
        mode = modes[i]
        Z = misc.normalize(Y) if norm and mode != 'converged' else Y
        if mode == 'combined':
            C, Ci, hyps = fit_better(X, Z, mu, name, selection, ard)
        elif mode == 'converged' and done:
            C, Ci, hyps = reuse(X, last, name)
        else:
            C, Ci, hyps = gp_fit(X, Z, mu, name, fitm, selection, ard)
            if mode == 'converged':
                done = last is not None and misc.converged(last, hyps, True)
        last = hyps
        out.append((C, Ci, hyps, Z))
    return out


def tp_optimize(R, X, Y, sampling, N, seed, name, acqn, norm, ard, mu, fitm, optimizer):
    Z = misc.normalize(Y) if norm else Y
    C, Ci, hyps = tp_kernel.get_optimized_kernel(X, Z, mu, name, str_optimizer_method=fitm, use_ard=ard)
    cand = candidates(lambda x: tp_score(x, X, Z, C, Ci, hyps, name, acqn, mu), R, optimizer, sampling, N, seed)
    vals = tp_score(cand, X, Z, C, Ci, hyps, name, acqn, mu)
    return best(cand, vals), {'next_points': cand, 'acquisitions': vals, 'Y_original': Y, 'Y_normalized': Z, 'cov_X_X': C, 'inv_cov_X_X': Ci, 'hyps': hyps}


def rf_optimize(R, X, Y, sampling, N, seed, acqn, norm):
    Z = misc.normalize(Y) if norm else Y
    trees = trees_random_forest.get_random_forest(X, Z, 100, 5, 1, int(np.sqrt(R.shape[0])))
    cand = sample(R, sampling, N, seed)
    vals = rf_score(cand, trees, Z, acqn)
    return best(cand, vals), {'next_points': cand, 'acquisitions': vals, 'Y_original': Y, 'Y_normalized': Z, 'trees': trees}


def optimizer_used(name, dim, has_direct, has_cma):
    if name == 'DIRECT' and not has_direct:
        return 'L-BFGS-B'
    if name == 'CMA-ES' and (not has_cma or dim == 1):
        return 'L-BFGS-B'
    return name


def same_point(a, b):
    return np.sqrt(np.sum((a - b) ** 2)) < 1e-8


def next_best(points, vals, done):
    """best candidate that coincides with no evaluated point; the last evaluated point when there is none"""
    new = np.array([not np.any(np.array([same_point(p, q) for q in done])) for p in points])
    if np.any(new):
        return points[np.argmin(np.where(new, vals, np.inf))]
    return done[-1]


def evaluate(f, X):
    return np.array([f(x) for x in X]).reshape((X.shape[0], 1))


def run(model, f, X, Y, K, kw):
    ts = []
    ta = []
    for _ in range(K):
        p, info = model.optimize(X, Y, **kw)
        if np.any(np.sqrt(np.sum((p - X) ** 2, axis=1)) < 1e-8):
            p = next_best(info['next_points'], info['acquisitions'], X)
        X = np.concatenate((X, p[np.newaxis, :]), axis=0)
        Y = np.concatenate((Y, np.reshape(np.array(f(p)), (1, 1))), axis=0)
        ts.append(info['time_surrogate'])
        ta.append(info['time_acq'])
    return X, Y, np.array(ts), np.array(ta)


def run_inputs(model, f, X, K, kw):
    return run(model, f, X, evaluate(f, X), K, kw)


def run_all(model, f, R, method, ni, seed, K, kw):
    return run_inputs(model, f, sample(R, method, ni, seed), K, kw)


def thompson(f, step, X, K):
    Y = evaluate(f, X)
    for _ in range(K):
        p = step(X, Y)
        X = np.concatenate((X, p[np.newaxis, :]), axis=0)
        Y = np.concatenate((Y, np.reshape(np.array(f(p)), (1, 1))), axis=0)
    return X, Y


def best_by_evaluation(P, f):
    """the row of smallest value, as a one-row array"""
    vals = np.array([f(p) for p in P]).reshape((P.shape[0],))
    return P[np.argmin(vals)][np.newaxis, :]


def thompson_point(P, X, Y, norm):
    """candidate minimising one draw from the posterior over the candidates"""
    Z = misc.normalize(Y) if norm else Y
    m, _, S = gp.predict_with_optimized_hyps(X, Z, P, str_cov='matern52', str_optimizer_method='BFGS', prior_mu=None)
    draw = gp.sample_functions(m[:, 0], S, num_samples=1)
    return P[np.argmin(draw[0])]


def has_converged(hist, hyps, name, fix_noise):
    if len(hist) == 0:
        return False
    return misc.converged(hist[-1], hyps, fix_noise)
