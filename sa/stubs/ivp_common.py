"""Contract of scipy.integrate._ivp.common helpers."""
import numpy as np
from warnings import warn
from scipy.integrate._ivp._numjac import num_jac, EPS, norm      # opaque
from scipy.integrate._ivp.base import DenseOutput as _DO


def validate_max_step(max_step):
    if max_step <= 0:
        raise ValueError("`max_step` must be positive.")
    return max_step


def validate_first_step(first_step, t0, t_bound):
    if first_step <= 0:
        raise ValueError("`first_step` must be positive.")
    if first_step > np.abs(t_bound - t0):
        raise ValueError("`first_step` exceeds bounds.")
    return first_step


def warn_extraneous(extraneous):
    if extraneous:
        __extraneous__(extraneous)
