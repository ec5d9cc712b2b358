"""Datasets, parameters and noise programs for the clustering checks."""
import numpy as np

from sim import dpnoise  # installs the seams before the package is imported
from clustering import central_privacy_utils
from clustering import clustering_params
from clustering import coreset_params
from clustering import privacy_calculator


def random_data(rng, tier):
  n = rng.choice([0, 1, 2, 3, rng.randint(4, 40), rng.randint(4, 40), rng.randint(40, 300)])
  return {'n': n, 'dim': rng.choice([1, 2, 3, 8]), 'seed': rng.randint(0, 10**6),
          'shape': rng.choice(['uniform', 'uniform', 'clusters', 'same', 'outside', 'zero',
                               'huge']),
          'radius': rng.choice([0.5, 1.0, 7.0, 1e-3])}


def points(d):
  rs = np.random.RandomState(d['seed'])
  n, dim, r = d['n'], d['dim'], d['radius']
  x = rs.uniform(-1, 1, size=(n, dim)) * r / np.sqrt(dim)
  s = d['shape']
  if s == 'clusters' and n:
    c = rs.uniform(-1, 1, size=(3, dim)) * r / np.sqrt(dim)
    x = c[rs.randint(0, 3, n)] * 0.9 + 0.02 * x
  elif s == 'same':
    x = np.repeat(x[:1], n, axis=0) if n else x
  elif s == 'outside':
    x = x * rs.choice([0.5, 1, 3, 1e3], size=(n, 1))
  elif s == 'zero':
    x[: n // 2 + 1] = 0.0
  elif s == 'huge' and n:
    x[0] *= 1e150
  return x


def random_tree_param(rng):
  node = rng.choice([1, 1, 2, 5, 20])
  return {'node': node, 'branch': node * rng.choice([1, 1, 2, 5]) + rng.choice([0, 1]),
          'depth': rng.choice([0, 1, 2, 3, 5, 8])}


def tree_param(t):
  return clustering_params.TreeParam(t['branch'], t['node'], t['depth'])


def coreset_param(t, radius, std, lap):
  """Coreset parameters with given noise, without a calibration."""
  pc = privacy_calculator.PrivacyCalculator(
      clustering_params.DifferentialPrivacyParam(np.inf, 1.0), radius, t['depth'],
      clustering_params.PrivacyCalculatorMultiplier())
  pc.average_privacy_param = central_privacy_utils.AveragePrivacyParam(std, radius)
  pc.count_privacy_param = central_privacy_utils.CountPrivacyParam(lap)
  return coreset_params.CoresetParam(pc, tree_param(t), 'simulated', radius)


def random_noise(rng):
  """A program for the count noise: how the simulated draws come out."""
  return {'mode': rng.choice(['real', 'real', 'up', 'wild', 'down', 'edge', 'zero']),
          'seed': rng.randint(0, 10**6), 'std': rng.choice([0.1, 1.0, 10.0]),
          'lap': rng.choice([0.05, 0.5, 2.0])}


def count_noise(nz, t):
  rs = np.random.RandomState(nz['seed'])
  mode = nz['mode']
  if mode == 'real':
    return None
  if mode == 'zero':
    return lambda k, a: 0
  if mode == 'up':
    # most nodes look heavy, so the tree grows to its full depth on a few paths
    return lambda k, a: int(rs.choice([t['branch'], t['branch'] + 3, -10**6],
                                      p=[0.3, 0.3, 0.4] if k > 8 else [0.5, 0.5, 0]))
  if mode == 'down':
    return lambda k, a: int(rs.choice([0, -1, -5, -1000]))
  if mode == 'edge':
    # released counts land around the thresholds
    return lambda k, a: int(rs.choice([t['node'] - 1, t['node'], t['branch'] - 1, t['branch'], 0, 1]))
  return lambda k, a: int(rs.choice([-10**9, -7, -1, 0, 1, 7, 10**9]))
