"""Reference semantics shared by the contracts: textbook definitions written in terms of the symbolic
numpy (`np`) so the same text gives proof terms and numeric oracles."""
from vt.contract import *
from vt import expr as X, shim
from vt.expr import *
from vt.tensor import T, lift, sum_axis, matmul, dimE
from vt.registry import Registry
import numpy as rnp
from vt.shim import np, scp, LOG2PI, PI, ew, normlogpdfE, gammalogpdfE, binomlogpmfE, poissonlogpmfE


def E1(f, *ts):
    """elementwise spec from a scalar expression function"""
    return ew(f)(*ts)


def log(x):
    return np.log(lift(x))


def exp(x):
    return np.exp(lift(x))


def link_spec(name, b=None):
    """(link, inverse) in mathematical form; b: a tensor/scalar"""
    if name == "Logit":
        return (lambda m: np.log(m / (1 - m))), (lambda e: 1 / (1 + np.exp(-e)))
    if name == "LOG":
        return (lambda m: np.log(m)), (lambda e: np.exp(e))
    if name == "Identity":
        return (lambda m: m), (lambda e: e)
    if name == "LOGb":
        return (lambda m: np.log(m + b)), (lambda e: np.exp(e) - b)


def xlogyE(a, b):
    return ite(X.eq(a, ZERO), ZERO, X.mul(a, fn("log", b)))


EF = "src/mssm/src/python/exp_fam.py"
