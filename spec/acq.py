"""Reference definitions: acquisition functions (minimisation; larger value = better candidate)."""
import numpy as np
from scipy.stats import norm


def z(mean, std, Y, jitter):
    return (np.min(Y) - mean) / (std + jitter)


def pi(mean, std, Y, jitter=1e-5):
    return norm.cdf(z(mean, std, Y, jitter))


def ei(mean, std, Y, jitter=1e-5):
    u = z(mean, std, Y, jitter)
    return (np.min(Y) - mean) * norm.cdf(u) + std * norm.pdf(u)


def ucb(mean, std, Y=None, kappa=2.0, increase_kappa=True):
    if Y is not None and increase_kappa:
        kappa = kappa * np.log(1.0 + Y.shape[0])
    return kappa * std - mean


def aei(mean, std, Y, noise, jitter=1e-5):
    return ei(mean, std, Y, jitter) * (1.0 - noise / np.sqrt(std ** 2 + noise ** 2))


def pure_exploit(mean):
    return -mean


def pure_explore(std):
    return std
