"""Exact marginals of linear systems with Gaussian noise, quadratic path constraint and fixed end points.

The path x_0 .. x_n (x_0 = y1) of the Euler scheme with step dt, weighted with exp(sum_i U(x_i, t_i) dt),
is jointly Gaussian; filtering and conditioning are done by Gaussian algebra.
"""
import numpy as np


def forward(A, b, g, Q, c, y1, n, dt):
    """mean, covariance of x_i under the weights of the steps 1..i (filtering), for i = 0..n.
    drift A x + b(i); noise covariance diag(g^2); U_i(x) = -(x - c(i))' Q (x - c(i))"""
    d = len(y1)
    F = np.eye(d) + dt * A
    R = np.diag(g ** 2) * dt
    m, P = np.array(y1, float), np.zeros((d, d))
    out, pred = [(m, P)], []
    for i in range(1, n + 1):
        m = F @ m + dt * b(i - 1)
        P = F @ P @ F.T + R
        pred.append((m, P))
        if Q is not None:
            W = 2 * Q * dt
            Pi = np.linalg.inv(P)
            P = np.linalg.inv(Pi + W)
            m = P @ (Pi @ m + W @ c(i))
        out.append((m, P))
    return out, pred


def smooth(filt, pred, A, y2, dt):
    """marginals of x_i given the weights of all steps and x_n = y2 (Rauch-Tung-Striebel)"""
    n = len(filt) - 1
    d = len(y2)
    F = np.eye(d) + dt * A
    m, P = np.array(y2, float), np.zeros((d, d))
    out = [(m, P)]
    for i in range(n - 1, 0, -1):
        mf, Pf = filt[i]
        mp, Pp = pred[i]
        G = Pf @ F.T @ np.linalg.inv(Pp)
        m = mf + G @ (m - mp)
        P = Pf + G @ (P - Pp) @ G.T
        out.append((m, P))
    out.append((filt[0][0], filt[0][1]))
    return out[::-1]
