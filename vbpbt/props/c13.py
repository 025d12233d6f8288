"""C13: correlations made from a known kernel give that kernel back, with an error that vanishes with the time step."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, volterra
from ..core import Property, SubCheck, as_np, close, require, rng_of

# order, constant of the error bound (about twice what this class of kernels gives), error ratio when the time step is halved
ORDER = {"rectangular": (1, 1.8, 0.62), "second_kind_rect": (1, 2.6, 0.62), "trapz": (2, 1.7, 0.38), "second_kind_trapz": (2, 0.5, 0.34), "midpoint": (2, 1.9, 0.40), "midpoint_w_richardson": (2, 0.06, 0.18)}


class Analytic:
    """B(t) = sum A_p exp(-a_p t), K(t) = sum C_q exp(-b_q t) (complex conjugate pairs), DxB = - B * K"""

    def __init__(self, case):
        rng = rng_of(case["seed"], 5)
        K, d = case["K"], case["d"]
        self.a, self.A, self.b, self.C = [], [], [], []
        M = 0.3 * rng.normal(size=(K, K))
        S = np.eye(K) + M @ M.T
        self._pair(self.a, self.A, S, rng.uniform(0.3, 0.8), rng.uniform(0.0, 1.0))
        self._pair(self.a, self.A, 0.15 * rng.normal(size=(K, K)), rng.uniform(0.5, 1.2), rng.uniform(0.0, 1.5))
        for _ in range(2):
            self._pair(self.b, self.C, rng.normal(size=(K, d)), rng.uniform(1.3, 2.0), rng.uniform(1.6, 2.5) if case["osc"] else 0.0)

    @staticmethod
    def _pair(exps, amps, mat, rate, om):
        for s in (1, -1):
            exps.append(rate + 1j * s * om)
            amps.append(0.5 * mat)

    def _sum(self, exps, amps, t, der=0):
        return sum(np.real(np.multiply.outer(A, (-e) ** der * np.exp(-e * t))) for e, A in zip(exps, amps))

    def B(self, t):
        return self._sum(self.a, self.A, t)

    def dB(self, t):  # derivative on the left: minus the time derivative
        return -self._sum(self.a, self.A, t, 1)

    def Kt(self, t):
        return np.moveaxis(self._sum(self.b, self.C, t), -1, 0)

    def X(self, t):
        res = 0.0
        for a, A in zip(self.a, self.A):
            for b, C in zip(self.b, self.C):
                res = res - np.real(np.multiply.outer(A @ C, (np.exp(-b * t) - np.exp(-a * t)) / (a - b)))
        return res

    def dX(self, t):
        res = 0.0
        for a, A in zip(self.a, self.A):
            for b, C in zip(self.b, self.C):
                res = res + np.real(np.multiply.outer(A @ C, (-b * np.exp(-b * t) + a * np.exp(-a * t)) / (a - b)))
        return res


def invert(an, case, n, T):
    dt = T / (n - 1)
    t = np.arange(n) * dt
    est = volterra.blank_estimator(dt, n, case["K"], case["d"])
    volterra.give(est, an.B(t), an.X(t), an.dB(t), an.dX(t))
    est.compute_kernel(method=case["method"])
    return as_np(est.model.kernel["time_kernel"]), as_np(est.model.kernel)


def check(case):
    an = Analytic(case)
    T = 4.0
    errs = []
    scale = sum(np.abs(C) for C in an.C).max()  # amplitude of the parts of the kernel: they may compensate each other
    for n in (case["n"], 2 * case["n"] - 1, 4 * case["n"] - 3):
        t, k = invert(an, case, n, T)
        keep = t < T * 0.9
        if case["method"].startswith("midpoint"):
            keep[-1] = False
        errs.append(np.abs(k[keep] - an.Kt(t[keep])).max() / scale)
    p, const, lim = ORDER[case["method"]]
    h = T / (case["n"] - 1)
    bound = const * h**p
    require(errs[0] <= bound, "%s: error %.3g on the kernel with time step %.3g (bound %.3g)", case["method"], errs[0], h, bound)
    require(errs[2] <= lim * errs[1] + 1e-3 * const * (h / 4) ** p, "%s: the error goes %.3g -> %.3g -> %.3g when the time step is divided by two", case["method"], *errs)
    return {"nontrivial": True, "labels": [case["method"], "K%d" % case["K"], "d%d" % case["d"], "osc" if case["osc"] else "decay"]}


@st.composite
def cases(draw):
    return {"method": draw(st.sampled_from(sorted(ORDER))), "K": draw(st.integers(1, 3)), "d": draw(st.integers(1, 2)), "n": draw(st.integers(40, 80)), "osc": draw(st.booleans()), "seed": draw(gen.seeds)}


PROPERTY = Property(
    "C13",
    "random kernels and basis correlations, sums of (complex) exponentials, 1-3 functions, 1-2 observables, for which the other correlations are known in closed form; inverted with three time steps by every method and compared with the kernel they come from. Non-trivial: all.",
    [SubCheck("recover", cases, check, 600)],
    assumptions=["error bounds C dt^p, and error ratios per halving of the time step, set per method with a margin of about two for this class of kernels"],
)
