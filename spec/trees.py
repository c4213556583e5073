"""Reference definitions: trees and forests."""
import numpy as np
from bayeso.trees import trees_common


def pairs(X, Y):
    return list(zip(X, Y))


def partition(X, Y, j, v):
    """rows below the split value, the remaining rows"""
    below = X[:, j] < v
    rest = np.logical_not(below)
    return pairs(X[below], Y[below]), pairs(X[rest], Y[rest])


def replay(X, Y, node):
    """what splitting by the recorded index and value gives"""
    return trees_common._split_left_right(X, Y, node['index'], node['value'])


def inputs(leaf):
    return np.array([bx for bx, by in leaf])


def outputs(leaf):
    return np.array([by for bx, by in leaf])


def side(rows, depth_max, size_min_leaf, num_features, randomly, depth):
    if len(rows) <= size_min_leaf:
        return rows
    child = trees_common._split(inputs(rows), outputs(rows), num_features, randomly)
    trees_common.split(child, depth_max, size_min_leaf, num_features, randomly, depth + 1)
    return child


def grow(node, depth_max, size_min_leaf, num_features, randomly, depth):
    """both sides of a node from the rows on that side"""
    left, right = node['left_right']
    del node['left_right']
    if len(left) == 0 or len(right) == 0:
        node['left'] = left + right
        node['right'] = left + right
    elif depth >= depth_max:
        node['left'] = left
        node['right'] = right
    else:
        node['left'] = side(left, depth_max, size_min_leaf, num_features, randomly, depth)
        node['right'] = side(right, depth_max, size_min_leaf, num_features, randomly, depth)


def descend(bx, tree):
    child = tree['left'] if bx[tree['index']] < tree['value'] else tree['right']
    if isinstance(child, dict):
        return trees_common._predict_by_tree(bx, child)
    Y = outputs(child)
    return np.mean(Y), np.std(Y)


def leaf_of(bx, tree):
    if bx[tree['index']] < tree['value']:
        child = tree['left']
    else:
        child = tree['right']
    if isinstance(child, dict):
        return leaf_of(bx, child)
    Y = outputs(child)
    return np.mean(Y), np.std(Y)


def mixture(mus, sds):
    """mean and deviation of the equally weighted mixture"""
    mu = np.mean(mus)
    return mu, np.sqrt(np.maximum(np.mean(sds ** 2 + mus ** 2) - mu ** 2, 0.0))


def mixture_of(bx, trees):
    each = [trees_common._predict_by_tree(bx, t) for t in trees]
    return mixture(np.array([q[0] for q in each]), np.array([q[1] for q in each]))


def forest(X, trees):
    """predictions row by row, in the order of the rows"""
    each = [mixture_of(bx, trees) for bx in X]
    return np.array([[q[0]] for q in each]), np.array([[q[1]] for q in each])


def forest_full(X, trees):
    mus, sds = [], []
    for bx in X:
        each = [leaf_of(bx, t) for t in trees]
        mu, sd = mixture(np.array([q[0] for q in each]), np.array([q[1] for q in each]))
        mus.append([mu])
        sds.append([sd])
    return np.array(mus), np.array(sds)


def bootstrap(X, Y, ratio, replace):
    rows = np.random.choice(X.shape[0], int(X.shape[0] * ratio), replace=replace)
    return X[rows], Y[rows]


def trees(X, Y, num, depth_max, size_min_leaf, ratio, replace, num_features, randomly):
    out = []
    for _ in range(num):
        Xb, Yb = trees_common.subsample(X, Y, ratio, replace)
        root = trees_common._split(Xb, Yb, num_features, randomly)
        trees_common.split(root, depth_max, size_min_leaf, num_features, randomly, 1)
        out.append(root)
    return out


def random_forest(X, Y, num, depth_max, size_min_leaf, num_features):
    return trees(X, Y, num, depth_max, size_min_leaf, 1.0, True, num_features, False)


def deviation_of(Y):
    """mean squared deviation of the responses of one side; an empty side is heavily penalised"""
    if Y.shape[0] > 0:
        return np.mean((Y - np.mean(Y)) ** 2)
    return 1e8


def score(sides):
    return deviation_of(outputs(sides[0])) + deviation_of(outputs(sides[1]))


def neighbours(X, Y, j):
    """candidate location, its score: at most twenty midpoints between neighbouring distinct values, the best one first"""
    vals = np.sort(np.unique(X[:, j]))
    count = vals.shape[0] - 1 if vals.shape[0] > 1 else 1
    best_v, best_s = np.inf, np.inf
    for q in np.random.choice(count, np.minimum(20, count), replace=False):
        v = np.mean(vals[q:q + 2]) if vals.shape[0] > 1 else X[0, j]
        s = trees_common.mse(trees_common._split_left_right(X, Y, j, v))
        if s < best_s:
            best_v, best_s = v, s
    return best_v, best_s


def anywhere(X, Y, j):
    """one uniform location between the smallest and the largest value"""
    if np.unique(X[:, j]).shape[0] > 1:
        v = np.random.uniform(low=np.min(X[:, j]), high=np.max(X[:, j]))
    else:
        v = X[0, j]
    return v, trees_common.mse(trees_common._split_left_right(X, Y, j, v))


def chosen(X, Y, num_features, randomly):
    """the candidate of the smallest total deviation among distinct drawn dimensions, the first one of equals"""
    best_j, best_v, best_s = np.inf, np.inf, np.inf
    for f in np.random.choice(X.shape[1], num_features, replace=False):
        v, s = anywhere(X, Y, int(f)) if randomly else neighbours(X, Y, int(f))
        if s < best_s:
            best_j, best_v, best_s = int(f), v, s
    return best_j, best_v
