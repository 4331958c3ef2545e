"""Statistical oracles: Gaussian noise, regression of velocities, means over random inducing points."""
import numpy as np

from . import flow, ref
from .core import require

Z6 = 6.5          # two-sided p = 8e-11


def gaussian(xi, what):
    """xi: dim x n array that should be independent standard normals"""
    d, n = xi.shape
    r = 1 / np.sqrt(n)
    m = xi.mean(1)
    require(np.abs(m).max() <= Z6 * r, "%s: mean %.4g standard deviations instead of 0 (%d samples)", what,
            m[np.abs(m).argmax()], n)
    v = (xi ** 2).mean(1)
    lim = Z6 * np.sqrt(2) * r
    require((v <= 1 + lim * 1.3).all() and (v >= 1 - lim).all(), "%s: variance %r times what it should be (%d samples)",
            what, v.round(4).tolist(), n)
    if n >= 500:
        kurt = (xi ** 4).mean(1) / v ** 2
        require(np.abs(kurt - 3).max() <= 10 * np.sqrt(24) * r, "%s: kurtosis %r, not Gaussian", what, kurt.round(3).tolist())
    if xi.size >= 500:
        from scipy import stats
        x = xi.ravel()
        p = stats.kstest(x, "norm").pvalue
        require(p >= 1e-10, "%s: not Gaussian (Kolmogorov-Smirnov, p=%.2g, %d values)", what, p, x.size)
        for z in (2.0, 3.0, 4.0):
            out = int((np.abs(x) > z).sum())
            p = stats.binomtest(out, x.size, 2 * stats.norm.sf(z)).pvalue
            require(p >= 1e-11, "%s: %d of %d values beyond %g standard deviations, %.1f expected", what, out, x.size, z,
                    x.size * 2 * stats.norm.sf(z))
        require(np.abs(x).max() <= 8.0, "%s: a value at %.1f standard deviations", what, np.abs(x).max())
    c = np.corrcoef(xi) if d > 1 else np.ones((1, 1))
    off = np.abs(c - np.diag(np.diag(c))).max() if d > 1 else 0.0
    require(off <= Z6 * r, "%s: the noise of two dimensions has correlation %.3g", what, off)
    for x in xi:
        same = (np.diff(np.sort(np.abs(x))) < 1e-10).sum()       # equal or opposite, up to rounding
        require(same <= 3 + n // 100, "%s: particles share their noise (%d of %d)", what, same, n)
        a = np.mean(x[1:] * x[:-1])
        require(abs(a) <= Z6 * 1.2 * r, "%s: neighbouring particles have correlated noise (%.3g)", what, a)


def independent(xs, what, least=0.0):
    """rows: independent repetitions, columns: variables that should be independent of each other,
    all standard normal; finds pairs that are correlated, and many pairs that are a little"""
    from scipy import stats
    n, k = xs.shape
    if n < 8 or k < 2:
        return
    x = xs / np.sqrt((xs ** 2).sum(0))
    c = np.triu(x.T @ x, 1)
    i, j = np.unravel_index(np.abs(c).argmax(), c.shape)
    r = min(abs(c[i, j]), 1 - 1e-15)
    p = 2 * stats.t.sf(r * np.sqrt((n - 1) / (1 - r * r)), n - 1) * k * (k - 1) / 2
    require(p >= 1e-10 or r <= least, "%s: noise of %d and %d has correlation %.3g (%d samples, p=%.2g)", what, i, j, c[i, j], n, p)
    if not least:
        s = xs.T @ xs / np.sqrt(n)
        z = (s[np.triu_indices(k, 1)] ** 2 - 1).sum() / np.sqrt(k * (k - 1.0) * (1 + 2.0 * k / n))
        require(z <= 9.0, "%s: the noises of many pairs are correlated (%.3g standard errors)", what, z)


def regress(V, *cols):
    A = np.stack([np.concatenate([c.ravel() for c in col]) for col in cols], 1)
    y = np.concatenate([v.ravel() for v in V])
    c = np.linalg.lstsq(A, y, rcond=None)[0]
    return c, y - A @ c


def averaged(draw, want_mean, want_sd, nref, what, factor=1.0, runs=80, extra=0.0):
    """mean of `runs` draws against a reference mean (known up to nref draws)"""
    x = np.array([draw() for _ in range(runs)])
    m, sd = x.mean(0), x.std(0)
    se = np.sqrt(np.maximum(sd, factor * want_sd) ** 2 / runs + (factor * want_sd) ** 2 / nref)
    se = np.maximum(se, 0.3 * np.sqrt((se ** 2).mean(-1, keepdims=True)))
    z = np.abs(m - want_mean) / (se + extra + 1e-300)
    return m, z


class Steps:
    """Velocities of many steps against their expected form  sum_j coef_j * term_j,
    where the terms are scores averaged over `draws` random sets of inducing points."""

    def __init__(self, coefs, what):
        self.coefs = np.array(coefs, float)
        self.what = what
        self.V, self.T, self.W = [], [], []
        self.worst = 0.0

    def add(self, V, terms, sds, again=None, label=""):
        """V: velocity (dim x N); terms, sds: mean and spread of each score term;
        again(): terms of one more set of inducing points (to confirm a deviation)"""
        S = sum(c * t for c, t in zip(self.coefs, terms))
        sd = np.sqrt(sum((c * s) ** 2 for c, s in zip(self.coefs, sds)))
        scale = rms(sd) + 0.02 * rms(S) + 1e-12
        dev = rms(V - S) / scale
        self.worst = max(self.worst, dev)
        if not dev <= 4.0:
            if again is not None and np.isfinite(V).all():
                X = np.array([sum(c * t for c, t in zip(self.coefs, again())) for _ in range(500)])
                m = X.mean(0)
                spread = max(rms(x - m) for x in X)
                dev = rms(V - m) / (2.0 * spread + 0.05 * rms(m) + 1e-12)
                require(dev <= 1.0, "%s %s: rms deviation %.4g from the expected velocity (rms %.4g; the choice of inducing "
                        "points explains at most %.3g)", self.what, label, rms(V - m), rms(m), spread)
            else:
                require(False, "%s %s: not finite", self.what, label)
        self.V.append(V.ravel() / scale)
        self.T.append([t.ravel() / scale for t in terms])
        self.W.append(rms(S) / scale)

    def coefficients(self):
        A = [np.stack(t, 1) for t in self.T]
        Hs, bs = np.array([a.T @ a for a in A]), np.array([a.T @ v for a, v in zip(A, self.V)])
        H, b = Hs.sum(0), bs.sum(0)
        ridge = 1e-9 * np.trace(H) * np.eye(len(H))
        Hi = np.linalg.inv(H + ridge)
        c = Hi @ b
        G = sum(np.outer(a.T @ (v - a @ c), a.T @ (v - a @ c)) for a, v in zip(A, self.V))
        se = np.sqrt(np.diag(Hi @ G @ Hi))
        # leaving out one step at a time: a coefficient may hang on a single step
        n = len(A)
        out = np.array([np.linalg.solve(H - h + ridge, b - a) for h, a in zip(Hs, bs)])
        return c, np.maximum(se, np.sqrt((n - 1) / n * ((out - c) ** 2).sum(0)))

    def check(self, slack, z=8.0):
        if len(self.V) < 12:          # too few independent steps to know the uncertainty
            return None
        c, se = self.coefficients()
        for name, got, want, s in zip(self.names if hasattr(self, "names") else range(len(c)), c, self.coefs, se):
            require(abs(got - want) <= z * s + slack, "%s: coefficient of %s is %.4f instead of %g (+- %.4f) over %d steps",
                    self.what, name, got, want, s, len(self.V))
        return c, se


def rms(a):
    return float(np.sqrt(np.mean(np.square(a))))


def repeats(p, per, least=16):
    """the problem with enough seeds for a coefficient to be estimated"""
    n = max(1, -(-least // max(1, per)))
    return [dict(p, seed=(p["seed"] + 7919 * k) % 2 ** 31) for k in range(n)]


def some(k, rng, many=12, ends=14):
    """step indices to look at: all of a short run, the ends and a random choice of a long one"""
    if k <= 60:
        return None
    return set(range(ends)) | set(range(k - ends, k)) | set(rng.integers(0, k, size=many).tolist())


SLACK = {1: 0.01, 2: 0.03, 3: 0.08, 4: 0.15}


def draws(d):
    return 12 if d <= 2 else 24


def pre_weighting(r):
    """states given to the constraint at every step, i.e. before the reweighting"""
    pre = {}
    for x, when, _ in r.calls["U"]:
        pre.setdefault(int(np.argmin(np.abs(r.t - when))), x)
    return pre


def g2(p):
    return flow.gvec(p)[:, None] ** 2


def forward_steps(r, rng, Z, f, pre=(), only=None, what="forward flow", st=None):
    """deterministic steps: dZ/dt = f - 1/2 g^2 score(Z)"""
    p = r.p
    d, M, dd = p["sys"]["dim"], p["M"], flow.ddof(r.lib)
    st = st or Steps([-0.5], what)
    st.names = ["g^2 times the score of the flow"]
    for i in range(1, r.k - 1):
        if only is not None and i not in only:
            continue
        z = Z[:, :, i]
        box = ref.box_of(z)
        m, sd = ref.mean_score(z, box, z, M, draws(d), rng, dd)
        nxt = pre[i + 1] if i + 1 in pre else Z[:, :, i + 1]
        V = (nxt - z) / flow.DT - f(z, r.t[i])

        def again():
            return [g2(p) * ref.mean_score(z, box, z, M, 1, rng, dd)[0]]
        st.add(V, [g2(p) * m], [g2(p) * sd], again, "step %d of %d" % (i, r.k - 1))
    return st


def backward_steps(r, rng, f, only=None, what="backward flow", st=None):
    """deterministic steps, backwards in time: dB/dt = f - g^2 score_Z + 1/2 g^2 score_B"""
    p = r.p
    d, M, dd = p["sys"]["dim"], p["M"], flow.ddof(r.lib)
    st = st or Steps([-1.0, 0.5], what)
    st.names = ["g^2 times the score of the forward flow", "g^2 times the score of the backward flow"]
    for i in range(r.k - 2, 1, -1):
        if only is not None and i not in only:
            continue
        b, z = r.B[:, :, i], r.Z[:, :, i]
        box = flow.box(r.lib, z, b)
        mz, sz = ref.mean_score(z, box, b, M, draws(d), rng, dd)
        mb, sb = ref.mean_score(b, box, b, M, draws(d), rng, dd)
        V = (b - r.B[:, :, i - 1]) / flow.DT - f(b, r.t[i])

        def again():
            return [g2(p) * ref.mean_score(z, box, b, M, 1, rng, dd)[0],
                    g2(p) * ref.mean_score(b, box, b, M, 1, rng, dd)[0]]
        st.add(V, [g2(p) * mz, g2(p) * mb], [g2(p) * sz, g2(p) * sb], again, "step %d of %d" % (i, r.k - 1))
    return st


def first_backward_means(r, rng, draws_=10):
    """the possible expected positions after the first backward step (see DESIGN.md):
    the score of the forward flow at the target, with inducing points over the forward
    flow or at the target itself"""
    p = r.p
    d, dd = p["sys"]["dim"], flow.ddof(r.lib)
    z = r.Z[:, :, -1]
    y2 = r.y2.reshape(-1, 1)
    out = [ref.mean_score(z, ref.box_of(z), y2, p["M"], draws_, rng, dd)]
    out.append(ref.mean_score(z, ref.box_common(z, y2), y2, p["M"], draws_ if (r.lib == "numpy") else 1, rng, dd))
    return out
