"""Reference model of the discrete-action off-policy estimators (plain Python, per round)."""
INF = float("inf")


def mean(xs):
    return sum(xs) / len(xs)


def dm_term(pi, q):
    return sum(p * v for p, v in zip(pi, q))


def rounds(kind, rows, lam):
    """rows: list of dicts r,a,p,pi(list over actions),q(list),w(estimated iw). Per-round estimates,
    or None where the definition is undefined (0/0 normaliser)."""
    if kind == "rm":
        m = [1 if x["pi"][x["a"]] == 1 else 0 for x in rows]
        if sum(m) == 0:
            return [0.0] * len(rows)
        return [mm * x["r"] / mean(m) for mm, x in zip(m, rows)]
    if kind == "dm":
        return [dm_term(x["pi"], x["q"]) for x in rows]
    if kind == "b-ipw":
        w = [min(x["w"], lam) for x in rows]
        if mean(w) == 0:
            return None
        return [x["r"] * v / mean(w) for x, v in zip(rows, w)]
    w = [x["pi"][x["a"]] / x["p"] for x in rows]
    base = [dm_term(x["pi"], x["q"]) for x in rows]
    res = [x["r"] - x["q"][x["a"]] for x in rows]
    if kind == "ipw":
        return [min(v, lam) * x["r"] for v, x in zip(w, rows)]
    if kind == "snipw":
        if mean(w) == 0:
            return None
        return [v * x["r"] / mean(w) for v, x in zip(w, rows)]
    if kind == "dr":
        return [b + min(v, lam) * e for b, v, e in zip(base, w, res)]
    if kind == "sndr":
        if mean(w) == 0:
            return None
        return [b + v * e / mean(w) for b, v, e in zip(base, w, res)]
    if kind == "switch-dr":
        return [b + (v * e if v <= lam else 0.0) for b, v, e in zip(base, w, res)]
    if kind == "dr-os":
        return [b + shrink_os(v, lam) * e for b, v, e in zip(base, w, res)]
    if kind == "sg-ipw":
        s = [shrink_sg(v, lam) for v in w]
        if None in s:
            return None
        return [v * x["r"] for v, x in zip(s, rows)]
    if kind == "sg-dr":
        s = [shrink_sg(v, lam) for v in w]
        if None in s:
            return None
        return [b + v * e for b, v, e in zip(base, s, res)]
    raise KeyError(kind)


def shrink_os(w, lam):
    if lam == INF:
        return w
    if lam == 0:
        return 0.0
    return lam * w / (w * w + lam)


def shrink_sg(w, lam):
    d = 1 - lam + lam * w
    if d == 0:
        return None
    return w / d
