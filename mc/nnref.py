"""Reference training of small neural networks in double precision: own forward pass, own optimiser formulas, gradients of the documented objectives."""
import math

import torch

ACT = {"identity": lambda v: v, "logistic": lambda v: 1 / (1 + torch.exp(-v)), "tanh": torch.tanh,
       "relu": lambda v: torch.clamp(v, min=0.0), "elu": lambda v: torch.where(v > 0, v, torch.exp(torch.clamp(v, max=0.0)) - 1)}


def params_of(module):
    """[(W, b), ...] of the linear layers, in order, as doubles"""
    ps = [p.detach().clone().double() for p in module.parameters()]
    return ps


def forward(ps, X, activation):
    h = X
    k = len(ps) // 2
    for i in range(k):
        h = h @ ps[2 * i].T + ps[2 * i + 1]
        if i < k - 1:
            h = ACT[activation](h)
    return h


class Opt:
    def __init__(self, solver, lr, alpha, momentum=0.9, nesterov=True, b1=0.9, b2=0.999, eps=1e-8):
        self.solver, self.lr, self.alpha = solver, lr, alpha
        self.momentum, self.nesterov, self.b1, self.b2, self.eps = momentum, nesterov, b1, b2, eps
        self.t = 0
        self.s1 = self.s2 = None

    def step(self, ps, grads):
        self.t += 1
        gs = [g + self.alpha * p for g, p in zip(grads, ps)]
        if self.solver == "sgd":
            self.s1 = [g.clone() for g in gs] if self.s1 is None else [self.momentum * m + g for m, g in zip(self.s1, gs)]
            ds = [g + self.momentum * m for g, m in zip(gs, self.s1)] if self.nesterov else self.s1
            return [p - self.lr * d for p, d in zip(ps, ds)]
        if self.solver == "adagrad":
            self.s2 = [g * g for g in gs] if self.s2 is None else [v + g * g for v, g in zip(self.s2, gs)]
            return [p - self.lr * g / (torch.sqrt(v) + self.eps) for p, g, v in zip(ps, gs, self.s2)]
        z = [torch.zeros_like(g) for g in gs]
        self.s1 = [self.b1 * m + (1 - self.b1) * g for m, g in zip(self.s1 or z, gs)]
        self.s2 = [self.b2 * v + (1 - self.b2) * g * g for v, g in zip(self.s2 or z, gs)]
        return [p - self.lr * (m / (1 - self.b1**self.t)) / (torch.sqrt(v / (1 - self.b2**self.t)) + self.eps) for p, m, v in zip(ps, self.s1, self.s2)]


def train(ps, objective, batches, opt):
    """ascend objective(ps, batch) over the given batches"""
    for b in batches:
        ps = [p.detach().requires_grad_(True) for p in ps]
        v = objective(ps, b)
        gr = torch.autograd.grad(v, ps, allow_unused=True) if v.requires_grad else [None] * len(ps)
        ps = opt.step([p.detach() for p in ps], [torch.zeros_like(p) if g is None else -g for g, p in zip(gr, ps)])
    return ps


def discrete_value(kind, pi, a, r, p, lam, q=None):
    """documented estimator terms for policy pi (n, A)"""
    idx = torch.arange(len(a))
    w = pi[idx, a] / p
    if kind == "dm":
        return (q * pi).sum(1)
    if kind == "ipw":
        return w * r
    if kind == "dr":
        return w * (r - q[idx, a]) + (q * pi).sum(1)
    if kind == "snipw":
        return w * (r - lam)
    if kind == "ipw-os":
        return lam * w / (w * w + lam) * r
    if kind == "ipw-subgauss":
        return w / (1 - lam + lam * w) * r
    raise KeyError(kind)


def continuous_value(kind, act, a, r, p, h, qfun, lo=None, hi=None):
    if lo is not None:
        act = torch.clamp(act, min=lo, max=hi)
    if kind == "dpg":
        return qfun(act)
    k = torch.exp(-(((act - a) / h) ** 2) / 2) / math.sqrt(2 * math.pi) / h
    if kind == "ipw":
        return k * r / p
    q = qfun(act)
    return k * (r - q) / p + q
