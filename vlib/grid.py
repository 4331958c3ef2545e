"""Exact marginals of scalar diffusions x' = b(x, t) + g noise on a grid, by the forward and backward equations of the
Euler scheme, with weights exp(sum u dt) and a fixed end point."""
import numpy as np

H = 0.01


class Solution:
    pass


def solve(b, u, g, x0, times):
    dt = times[1] - times[0]
    n = len(times) - 1
    lo, hi = x0 - 3.0, x0 + 3.0
    x = np.arange(lo, hi + H / 2, H)
    s = g * np.sqrt(dt)
    r = Solution()
    r.x, r.n, r.w = x, n, []
    r.alpha = [None]
    half = np.arange(-int(np.ceil(7 * s / H)), int(np.ceil(7 * s / H)) + 1)

    def step(i):
        """transition from step i - 1 to step i: for every grid point, the grid points it can reach and the density there"""
        m = x + dt * b(x, times[i - 1], np)
        idx = np.round((m - lo) / H).astype(int)[:, None] + half
        inside = (idx >= 0) & (idx < len(x))
        idx = np.clip(idx, 0, len(x) - 1)
        return idx, np.exp(-0.5 * ((x[idx] - m[:, None]) / s) ** 2) * inside

    for i in range(1, n + 1):
        if i == 1:
            m = x0 + dt * float(b(np.array(x0), times[0], np))
            a = np.exp(-0.5 * ((x - m) / s) ** 2)
        else:
            idx, P = step(i)
            a = np.bincount(idx.ravel(), weights=(P * a[:, None]).ravel(), minlength=len(x))
        w = np.ones(len(x))
        if u is not None:
            e = u(x, times[i], np) * dt
            w = np.exp(e - e.max())
            a = a * w
        a = a / a.sum()
        r.alpha.append(a)
        r.w.append(w)
    r.mean = [x0] + [p @ x for p in r.alpha[1:]]
    r.sd = [0.0] + [np.sqrt(p @ (x - mu) ** 2) for p, mu in zip(r.alpha[1:], r.mean[1:])]

    def quantile(i, q):
        return float(np.interp(q, np.cumsum(r.alpha[i]), x))

    def bridge(y):
        beta = [None] * (n + 1)
        m = x + dt * b(x, times[n - 1], np)
        beta[n - 1] = np.exp(-0.5 * ((y - m) / s) ** 2) + 1e-300
        for i in range(n - 2, 0, -1):
            idx, P = step(i + 1)
            v = (P * (beta[i + 1] * r.w[i])[idx]).sum(1)          # w[i] are the weights of step i + 1
            beta[i] = v / v.max() + 1e-300
        r.beta = beta
        r.q = [None] + [r.alpha[i] * beta[i] / (r.alpha[i] @ beta[i]) for i in range(1, n)]

    def density(name, i):
        return r.alpha[i] if name == "forward" else r.q[i]

    def stats(name, i):
        p = density(name, i)
        mu = p @ x
        return mu, np.sqrt(p @ (x - mu) ** 2)

    def wasserstein(name, i, z):
        p = np.cumsum(density(name, i))
        qs = (np.arange(len(z)) + 0.5) / len(z)
        return np.abs(np.sort(z) - np.interp(qs, p, x)).mean()

    def draw(name, i, rng, k):
        # the bulk of the distribution
        return np.interp(rng.uniform(0.05, 0.95, size=k), np.cumsum(density(name, i)), x)

    def control(i, z):
        return np.interp(z, x, np.gradient(np.log(r.beta[i]), H))

    r.quantile, r.bridge, r.stats, r.wasserstein, r.draw, r.control = quantile, bridge, stats, wasserstein, draw, control
    return r
