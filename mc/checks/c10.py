"""C10: malformed logs and settings are rejected (fault enumeration)."""
import itertools

import numpy as np

from mc.core import Frozen
from mc.checks import c01, c05, c07, c09

ID = "C10"
LEVEL = "fault_enumeration"
RULE = ("for every estimator of every family and the front end above it, for both entry points: every single fault of the menu in every argument, value faults at every entry of the array; "
        "the faulty call must raise ValueError/TypeError and the repaired call on the same objects must succeed; every out-of-range constructor setting must be rejected, every boundary value accepted")
BOUNDS = {"quick": "all single faults (value faults at every entry), all pairs of faults in two different arguments (value faults at one entry); logs of 6-9 rounds, 1-3 positions", "thorough": "pairs also over up to 40 faults per argument"}
ASSUMPTIONS = ["a fault is judged by the raised exception type only, never by its message"]

DROP = object()


# ---------------------------------------------------------------- fault menu
def put(arr, idx, val):
    b = arr.copy()
    b[idx] = val
    return b


def type_faults(v, ndim):
    yield "list", v.tolist()
    yield "str", "5"
    yield "None", None
    yield "scalar", 0.5
    yield "dropped", DROP
    if ndim == 1:
        yield "2d", v.reshape(-1, 1)
        yield "2d-row", v.reshape(1, -1)
        yield "0d", np.array(v[0])
    else:
        yield "%dd" % (ndim - 1), v[..., 0]
        yield "%dd" % (ndim + 1), v[..., None]


def length_faults(v):
    yield "short", v[:-1]
    yield "long", np.concatenate([v, v[-1:]])
    yield "single", v[:1]
    yield "double", np.concatenate([v, v])


def entry_faults(v, vals):
    for i in range(len(v)):
        for x in vals:
            yield "v[%d]=%r" % (i, x), put(v, i, x)


def role_faults(role, v, info):
    """role -> (name, faulty value)"""
    if role == "reward":
        yield from type_faults(v, 1)
        yield from length_faults(v)
    elif role in ("action", "position", "stratum"):
        for n, x in type_faults(v, 1):
            if role == "position" and n in ("None", "dropped") and info["L"] == 1:
                continue
            yield n, x
        yield from length_faults(v)
        yield "float-dtype", v.astype(float)
        yield from entry_faults(v, [-1] + ([info["A"], info["A"] + 3] if role == "action" else [info["L"], info["L"] + 2] if role == "position" else []))
    elif role == "pscore":
        yield from type_faults(v, 1)
        yield from length_faults(v)
        yield from entry_faults(v, [0.0, -0.25, -1e-12])
        yield "all-zero", np.zeros_like(v)
    elif role == "iw":
        yield from type_faults(v, 1)
        yield from length_faults(v)
        yield from entry_faults(v, [-0.25, -1e-12])
    elif role == "dist":
        yield from type_faults(v, 3)
        yield from length_faults(v)
        for i in range(v.shape[0]):
            for l in range(v.shape[2]):
                for a in (0, v.shape[1] - 1):
                    yield "sum[%d,%d,%d]+" % (i, a, l), put(v, (i, a, l), v[i, a, l] + 0.5)
                yield "zero[%d,%d]" % (i, l), put(v, (i, slice(None), l), 0.0)
                yield "double[%d,%d]" % (i, l), put(v, (i, slice(None), l), 2.0 * v[i, :, l])
                yield "slightly-off[%d,%d]" % (i, l), put(v, (i, slice(None), l), 1.001 * v[i, :, l])
                # two rows (or two positions) off in opposite directions
                j, m = ((i + 1) % v.shape[0], l) if v.shape[0] > 1 else (i, (l + 1) % v.shape[2])
                for (i2, l2) in {(j, m), (i, (l + 1) % v.shape[2])} - {(i, l)}:
                    w = put(v, (i, slice(None), l), 1.25 * v[i, :, l])
                    w[i2, :, l2] *= 0.75
                    yield "opposite[%d,%d]" % (i, l), w
    elif role == "q3":
        yield from type_faults(v, 3)
        yield from length_faults(v)
        yield "one-action-less", v[:, :-1]
        yield "one-position-more", np.concatenate([v, v[:, :, :1]], axis=2)
        yield "swapped", np.swapaxes(v, 0, 1)
    elif role == "float1":
        yield from type_faults(v, 1)
        yield from length_faults(v)
    elif role == "embed":
        yield from type_faults(v, 2)
        yield from length_faults(v)
    elif role == "pea":
        for n, x in type_faults(v, 3):
            if n not in ("None", "dropped"):
                yield n, x
    elif role == "slate_id":
        yield from type_faults(v, 1)
        yield "short", v[:-1]
        yield "long", np.concatenate([v, v[-1:] + 1])
        yield "float-dtype", v.astype(float)
        yield from entry_faults(v, [-1])
        yield "merged", np.where(v == v[-1], v[0], v)
    elif role == "slate_pos":
        yield from type_faults(v, 1)
        yield from length_faults(v)
        yield "float-dtype", v.astype(float)
        yield from entry_faults(v, [-1])
        for i in range(len(v)):
            j = i + 1 if (i + 1) % info["L"] else i - info["L"] + 1
            if i != j:
                yield "dup[%d]" % i, put(v, i, v[j])
    elif role in ("sp", "sp_cascade", "sp_item"):
        yield from type_faults(v, 1)
        yield from length_faults(v)
        yield from entry_faults(v, [0.0, -0.25, -1e-12, 1.25, 1.0 + 2.0**-20])
        yield from structure_faults(role, v, info)
    elif role in ("ep", "ep_cascade", "ep_item"):
        yield from type_faults(v, 1)
        yield from length_faults(v)
        yield from entry_faults(v, [-0.25, -1e-12, 1.25, 1.0 + 2.0**-20])
        yield from structure_faults(role, v, info)
    elif role == "sdist":
        yield from type_faults(v, 1)
        yield "short-row", v[:-info["A"]]
        yield "long-row", np.concatenate([v, v[-info["A"]:]])
        for i in range(len(v)):
            yield "v[%d]+0.5" % i, put(v, i, v[i] + 0.5)
            yield "v[%d]+0.002" % i, put(v, i, v[i] + 0.002)
            w = put(v, i, v[i] + 0.25)
            j = (i + info["A"]) % len(v)
            w[j] -= 0.25
            yield "opposite[%d]" % i, w
    elif role == "sq":
        yield from type_faults(v, 1)
        yield "short-row", v[:-info["A"]]
        yield "long-row", np.concatenate([v, v[-info["A"]:]])
    else:
        raise KeyError(role)


def structure_faults(role, v, info):
    L = info["L"]
    if role in ("sp", "ep"):
        for i in range(len(v)):
            yield "not-constant[%d]" % i, put(v, i, v[i] / 2 if v[i] > 0 else 0.5)
    if role in ("sp_cascade", "ep_cascade"):
        for i in range(len(v)):
            if i % L:
                yield "increasing[%d]" % i, put(v, i, min(1.0, v[i - 1] + 0.0625))


# ---------------------------------------------------------------- systems
def systems(family):
    """name -> (builder, kwargs, {arg: role}, info)"""
    from obp import ope

    out = {}
    if family == "discrete":
        for L in (1, 2):
            log, pos = c01.ladder_log(7, 3, L, 2)
            log["estimated_importance_weights"] = log["estimated_importance_weights"] + 0.5
            base = dict(reward=log["reward"], action=log["action"], action_dist=log["action_dist"], position=pos.astype(int))
            roles = dict(reward="reward", action="action", action_dist="dist", position="position")
            info = dict(A=3, L=L)

            def add(name, b, *extra):
                kw, ro = dict(base), dict(roles)
                for k in extra:
                    kw[k] = log[k]
                    ro[k] = {"pscore": "pscore", "estimated_pscore": "pscore", "estimated_rewards_by_reg_model": "q3", "estimated_importance_weights": "iw"}[k]
                out["%s/L%d" % (name, L)] = (b, kw, ro, info)

            add("rm", lambda: ope.ReplayMethod())
            for nm, cl, q in (("ipw", ope.InverseProbabilityWeighting, 0), ("snipw", ope.SelfNormalizedInverseProbabilityWeighting, 0), ("dr", ope.DoublyRobust, 1),
                              ("sndr", ope.SelfNormalizedDoublyRobust, 1), ("switch", ope.SwitchDoublyRobust, 1), ("dros", ope.DoublyRobustWithShrinkage, 1),
                              ("sgipw", ope.SubGaussianInverseProbabilityWeighting, 0), ("sgdr", ope.SubGaussianDoublyRobust, 1)):
                qq = ("estimated_rewards_by_reg_model",) if q else ()
                kw0 = dict(lambda_=0.5) if nm not in ("snipw", "sndr") else {}
                add(nm, lambda cl=cl, kw0=kw0: cl(**kw0), "pscore", *qq)
                add(nm + "-e", lambda cl=cl, kw0=kw0: cl(use_estimated_pscore=True, **kw0), "estimated_pscore", *qq)
            for nm, cl, q in (("ipw-t", ope.InverseProbabilityWeightingTuning, 0), ("dr-t", ope.DoublyRobustTuning, 1), ("switch-t", ope.SwitchDoublyRobustTuning, 1),
                              ("dros-t", ope.DoublyRobustWithShrinkageTuning, 1), ("sgipw-t", ope.SubGaussianInverseProbabilityWeightingTuning, 0), ("sgdr-t", ope.SubGaussianDoublyRobustTuning, 1)):
                qq = ("estimated_rewards_by_reg_model",) if q else ()
                for tm in ("slope", "mse"):
                    add(nm + "-" + tm, lambda cl=cl, tm=tm: cl(lambdas=[0.25, 0.5], tuning_method=tm), "pscore", *qq)
                add(nm + "-e", lambda cl=cl: cl(lambdas=[0.25, 0.5], use_estimated_pscore=True), "estimated_pscore", *qq)
            add("dm", lambda: ope.DirectMethod(), "estimated_rewards_by_reg_model")
            b, kw, ro, inf = out["dm/L%d" % L]
            for k in ("reward", "action"):
                kw.pop(k), ro.pop(k)
            add("b-ipw", lambda: ope.BalancedInverseProbabilityWeighting(lambda_=5.0), "estimated_importance_weights")
            emb, epos = c07.big(7, 3, 2, 2, L, 1)
            for nm, cl in (("mipw", ope.MarginalizedInverseProbabilityWeighting), ("snmipw", ope.SelfNormalizedMarginalizedInverseProbabilityWeighting)):
                ro = dict(reward="reward", action="action", action_dist="dist", pi_b="dist", position="position", action_embed="embed", p_e_a="pea")
                kw = {k: emb[k] for k in ("reward", "action", "action_dist", "pi_b", "action_embed", "p_e_a")}
                kw["position"] = epos.astype(int)
                out["%s/L%d" % (nm, L)] = (lambda cl=cl: cl(n_actions=3), kw, ro, info)
                if L == 1:
                    for sel in ("exact", "greedy"):
                        out["%s-%s/L1" % (nm, sel)] = (lambda cl=cl, sel=sel: cl(n_actions=3, embedding_selection_method=sel), kw, ro, info)
    elif family == "multi":
        for L in (1, 2):
            log, pos = c01.ladder_log(8, 3, L, 2)
            log.update(pscore_avg=log["pscore"] / 2 + 0.25, estimated_pscore_avg=log["estimated_pscore"] / 2 + 0.125, stratum_idx=np.arange(8) % 2)
            base = dict(reward=log["reward"], action=log["action"], action_dist=log["action_dist"], position=pos.astype(int))
            roles = dict(reward="reward", action="action", action_dist="dist", position="position")
            info = dict(A=3, L=L)
            for kind in ("Naive", "Balanced", "Weighted"):
                for suf, q in (("InverseProbabilityWeighting", 0), ("DoublyRobust", 1)):
                    for est in (False, True):
                        cl = getattr(ope, "MultiLoggers%s%s" % (kind, suf))
                        key = ("estimated_" if est else "") + ("pscore_avg" if kind == "Balanced" else "pscore")
                        kw, ro = dict(base), dict(roles)
                        kw[key], ro[key] = log[key], "pscore"
                        if q:
                            kw["estimated_rewards_by_reg_model"], ro["estimated_rewards_by_reg_model"] = log["estimated_rewards_by_reg_model"], "q3"
                        if kind == "Weighted":
                            kw["stratum_idx"], ro["stratum_idx"] = log["stratum_idx"], "stratum"
                        out["%s%s%s/L%d" % (kind, "DR" if q else "IPW", "-e" if est else "", L)] = (lambda cl=cl, est=est: cl(use_estimated_pscore=est), kw, ro, info)
    elif family == "slate":
        L, A, ns = 3, 3, 3
        log = c09.slate_log(ns, L, A, 0)
        info = dict(A=A, L=L)
        for nm, key, e in c05.ips_ests(L):
            suf = {"pscore": "", "pscore_item_position": "_item", "pscore_cascade": "_cascade"}[key]
            kw = {k: log[k] for k in ("slate_id", "reward", "position", key, "evaluation_policy_" + key)}
            ro = dict(slate_id="slate_id", reward="reward", position="slate_pos")
            ro[key], ro["evaluation_policy_" + key] = "sp" + suf, "ep" + suf
            out[nm] = (lambda cl=type(e): cl(len_list=L), kw, ro, info)
        kw = {k: log[k] for k in ("slate_id", "action", "reward", "position", "pscore_cascade", "evaluation_policy_pscore_cascade", "q_hat", "evaluation_policy_action_dist")}
        ro = dict(slate_id="slate_id", action="action", reward="reward", position="slate_pos", pscore_cascade="sp_cascade",
                  evaluation_policy_pscore_cascade="ep_cascade", q_hat="sq", evaluation_policy_action_dist="sdist")
        out["cascade-dr"] = (lambda: ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A), kw, ro, info)
    else:
        n = 6
        i = np.arange(n)
        log = dict(action_by_behavior_policy=((i * 7) % 9) / 4.0, reward=((i * 5) % 7) / 2.0, pscore=((i % 4) + 1) / 4.0,
                   action_by_evaluation_policy=((i * 5 + 1) % 8) / 4.0, estimated_rewards_by_reg_model=((i * 3) % 5) / 4.0)
        for nm, cl in (("k-ipw", ope.KernelizedInverseProbabilityWeighting), ("k-snipw", ope.KernelizedSelfNormalizedInverseProbabilityWeighting), ("k-dr", ope.KernelizedDoublyRobust)):
            kw = dict(log)
            ro = dict(action_by_behavior_policy="float1", reward="reward", pscore="pscore", action_by_evaluation_policy="float1")
            if nm == "k-dr":
                ro["estimated_rewards_by_reg_model"] = "float1"
            else:
                kw.pop("estimated_rewards_by_reg_model")
            out[nm] = (lambda cl=cl: cl(kernel="gaussian", bandwidth=0.5), kw, ro, dict(A=0, L=1))
    return out


ENTRIES = [("value", lambda e, kw: e.estimate_policy_value(**kw)),
           ("interval", lambda e, kw: e.estimate_interval(n_bootstrap_samples=2, random_state=0, **kw))]


def apply(kw, faults):
    k2 = dict(kw)
    for a, v in faults:
        if v is DROP:
            k2.pop(a)
        else:
            k2[a] = v
    return k2


def single(c, family, names):
    sy = systems(family)
    for name in names:
        b, kw, roles, info = sy[name]
        for entry, call in ENTRIES:
            e = b()
            with c.case("legal", family=family, est=name, entry=entry):
                call(e, kw)
                c.step()
            for arg, role in roles.items():
                for fname, val in role_faults(role, kw[arg], info):
                    with c.case("%s/%s/%s" % (entry, arg, fname), est=name):
                        bad = apply(kw, [(arg, val)])
                        fz = Frozen(bad)
                        c.rejects(lambda: call(e, bad), "%s.%s with %s: %s" % (name, entry, arg, fname))
                        fz.check(c, "arguments of a rejected call")
                        c.step()
            with c.case("repaired", family=family, est=name, entry=entry):
                got = call(e, kw)
                c.same(repr(got), repr(call(b(), kw)), "value after rejected calls")
                c.step()


def pairs(c, family, names, full):
    sy = systems(family)
    for name in names:
        b, kw, roles, info = sy[name]
        menu = {}
        for arg, role in roles.items():
            fl = list(role_faults(role, kw[arg], info))
            keep, seen = [], set()
            for n, v in fl:
                k = n.split("[")[0] + n.split("]")[-1]
                if k not in seen or (full and len(keep) < 40):
                    seen.add(k)
                    keep.append((n, v))
            menu[arg] = keep
        for entry, call in ENTRIES:
            e = b()
            for a1, a2 in itertools.combinations(menu, 2):
                for (n1, v1), (n2, v2) in itertools.product(menu[a1], menu[a2]):
                    if n1 == n2 and n1 in ("short", "long", "single", "double"):
                        continue
                    with c.case("pair/%s/%s:%s+%s:%s" % (entry, a1, n1, a2, n2), est=name):
                        bad = apply(kw, [(a1, v1), (a2, v2)])
                        c.rejects(lambda: call(e, bad), "%s.%s" % (name, entry))
                        c.step()


GROUPS = {"log": ("reward", "action", "pscore", "estimated_pscore", "pscore_avg", "estimated_pscore_avg", "estimated_importance_weights", "action_embed"),
          "policy": ("action_dist", "estimated_rewards_by_reg_model", "position", "pi_b"),
          "model": ("estimated_rewards_by_reg_model", "action_dist"),
          "behaviour": ("action_by_behavior_policy", "reward", "pscore"),
          "evaluation": ("action_by_evaluation_policy", "estimated_rewards_by_reg_model"),
          "slate-log": ("slate_id", "reward", "position"),
          "slate-weights": ("pscore", "evaluation_policy_pscore", "pscore_cascade", "evaluation_policy_pscore_cascade", "pscore_item_position", "evaluation_policy_pscore_item_position")}


def large(c, family, names):
    """value faults in the first, a middle and the last entry of logs of more than a thousand rounds"""
    sy = systems(family)
    for name in names:
        b, kw, roles, info = sy[name]
        n0 = len(kw["reward"]) if "reward" in kw else len(kw["action_dist"])
        m = 2 + 1200 // n0
        big = {}
        for k, v in kw.items():
            if k == "p_e_a":
                big[k] = v
            elif k == "slate_id":
                big[k] = np.concatenate([v + r * (int(v.max()) + 1) for r in range(m)])
            else:
                big[k] = np.concatenate([v] * m, axis=0)
        vals = {"action": [-1, info["A"]], "position": [-1, info["L"]], "stratum": [-1], "pscore": [0.0, -0.25], "iw": [-0.25], "slate_id": [-1], "slate_pos": [-1],
                "sp": [0.0, 1.25], "sp_cascade": [0.0, 1.25], "sp_item": [0.0, 1.25], "ep": [-0.25, 1.25], "ep_cascade": [-0.25, 1.25], "ep_item": [-0.25, 1.25]}
        for entry, call in ENTRIES:
            e = b()
            with c.case("large-legal", family=family, est=name, entry=entry):
                call(e, big)
                c.step()
            for arg, role in roles.items():
                N = len(big[arg])
                at = sorted({0, 1, N // 2, N - 2, N - 1, 1000})
                bad = []
                for i in at:
                    for x in vals.get(role, []):
                        bad.append(("v[%d]=%r" % (i, x), put(big[arg], i, x)))
                    if role == "dist":
                        bad.append(("sum[%d]" % i, put(big[arg], (i, 0, big[arg].shape[2] - 1), big[arg][i, 0, -1] + 0.5)))
                    if role == "sdist":
                        bad.append(("sum[%d]" % i, put(big[arg], i, big[arg][i] + 0.5)))
                    if role in ("sp", "ep"):
                        bad.append(("not-constant[%d]" % i, put(big[arg], i, big[arg][i] / 2 if big[arg][i] > 0 else 0.5)))
                if role not in ("pea",):
                    bad.append(("short", big[arg][:-1]))
                for fname, val in bad:
                    with c.case("large/%s/%s/%s" % (entry, arg, fname), est=name):
                        c.rejects(lambda: call(e, apply(big, [(arg, val)])), "%s.%s with %s: %s" % (name, entry, arg, fname))
                        c.step()


def groups(c, family, names):
    """several arguments change length together, consistently with one another but not with the rest"""
    sy = systems(family)
    for name in names:
        b, kw, roles, info = sy[name]
        if "reward" not in kw:
            continue
        for entry, call in ENTRIES:
            e = b()
            for g, ks in GROUPS.items():
                ks = [k for k in ks if k in kw]
                if not ks or len(ks) == len(kw):
                    continue
                for fn in ("short", "long", "single", "double"):
                    for nopos in ((False, True) if info["L"] == 1 and family in ("discrete", "multi") else (False,)):
                        with c.case("group/%s/%s/%s" % (entry, g, fn), est=name, nopos=nopos):
                            bad = dict(kw)
                            for k in ks:
                                bad[k] = dict(length_faults(kw[k]))[fn]
                            if nopos:
                                bad["position"] = None
                            c.rejects(lambda: call(e, bad), "%s.%s with %s %s" % (name, entry, fn, ks))
                            c.step()


def interval_args(c, family):
    for name, (b, kw, roles, info) in systems(family).items():
        e = b()
        for arg, good, bads in (("alpha", (0.05, 0.5, 0.999), (-0.1, 1.1, "a", None, [0.05], 7.0)),
                                ("n_bootstrap_samples", (1, 2, 7), (0, -1, 1.5, "3", None, [3])),
                                ("random_state", (0, 7, None), ("a", -1, [[1.5]], 0.5))):
            base = dict(alpha=0.05, n_bootstrap_samples=2, random_state=0)
            for v in good:
                with c.case("interval-arg-ok/%s=%r" % (arg, v), est=name):
                    e.estimate_interval(**{**kw, **base, arg: v})
                    c.step()
            for v in bads:
                with c.case("interval-arg/%s=%r" % (arg, v), est=name):
                    c.rejects(lambda: e.estimate_interval(**{**kw, **base, arg: v}), "%s %s=%r" % (name, arg, v))
                    c.step()


def constructors(c, which):
    from obp import ope
    from sklearn.linear_model import LogisticRegression, Ridge

    nan, inf = float("nan"), float("inf")
    lam = ((0, 0.0, 0.5, 10, 10.0, inf), (-0.1, -1, -inf, nan, "1", None, [1.0], np.array([1.0])))
    lam01 = ((0, 0.0, 0.5, 1, 1.0), (-0.1, 1.5, 2, nan, inf, "0.5", None, [0.5]))
    flag = ((True, False), ("True", "s", 1, 0, None, [], 1.0))
    spec = []
    if which == "discrete":
        for cl in (ope.InverseProbabilityWeighting, ope.DoublyRobust, ope.SwitchDoublyRobust, ope.DoublyRobustWithShrinkage):
            spec.append((cl, {}, dict(lambda_=lam, use_estimated_pscore=flag)))
        for cl in (ope.SubGaussianInverseProbabilityWeighting, ope.SubGaussianDoublyRobust):
            spec.append((cl, {}, dict(lambda_=lam01, use_estimated_pscore=flag)))
        for cl in (ope.SelfNormalizedInverseProbabilityWeighting, ope.SelfNormalizedDoublyRobust):
            spec.append((cl, {}, dict(use_estimated_pscore=flag)))
        spec.append((ope.BalancedInverseProbabilityWeighting, {}, dict(lambda_=lam)))
        for cl in (ope.MarginalizedInverseProbabilityWeighting, ope.SelfNormalizedMarginalizedInverseProbabilityWeighting):
            spec.append((cl, dict(n_actions=3), dict(n_actions=((2, 10), (1, 0, -3, 2.0, "3", None, [3])), min_emb_dim=((1, 5), (0, -1, 1.5, "1", None)),
                                                     delta=((0.0, 0.05, 1.0), (-0.1, 1.1, 5.0, "0.1", None, [0.05])),
                                                     embedding_selection_method=((None, "exact", "greedy"), ("abc", "", 1, "Exact")),
                                                     pi_a_x_e_estimator=((LogisticRegression(),), (Ridge(), None, "lr")))))
    elif which == "multi":
        for kind in ("Naive", "Balanced", "Weighted"):
            for suf in ("InverseProbabilityWeighting", "DoublyRobust"):
                spec.append((getattr(ope, "MultiLoggers%s%s" % (kind, suf)), {}, dict(lambda_=lam, use_estimated_pscore=flag)))
    elif which == "tuning":
        lst = ([1.0], [0, 1], [0.0, 0.5, 1.0]), ([], (0.5,), ["a"], [-1.0], [0.5, -0.1], [0.5, nan], [nan, 0.5], [None], None, 1.0, "s", np.array([0.5]), {0.5})
        for nm in ("InverseProbabilityWeighting", "DoublyRobust", "SwitchDoublyRobust", "DoublyRobustWithShrinkage", "SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"):
            l2 = lst if not nm.startswith("Sub") else (lst[0], lst[1] + ([1.5], [0.5, 1.1], [inf]))
            if not nm.startswith("Sub"):
                l2 = (lst[0] + ([5.0, inf],), lst[1])
            spec.append((getattr(ope, nm + "Tuning"), dict(lambdas=[0.5]), dict(lambdas=l2, tuning_method=(("slope", "mse"), ("abc", "", None, 1, "MSE")),
                                                                             use_bias_upper_bound=flag, delta=((0.05, 0.5, 1.0), (-0.1, 1.1, "0.1", None, [0.05])), use_estimated_pscore=flag)))
    else:
        for cl in (ope.KernelizedInverseProbabilityWeighting, ope.KernelizedSelfNormalizedInverseProbabilityWeighting, ope.KernelizedDoublyRobust):
            spec.append((cl, dict(kernel="gaussian", bandwidth=0.5), dict(kernel=(("gaussian", "epanechnikov", "triangular", "cosine"), ("abc", "", None, 1, "Gaussian")),
                                                                         bandwidth=((0.1, 1, 10.0), (-0.1, -1, "1", None, [1.0])))))
        spec.append((ope.SlateCascadeDoublyRobust, dict(len_list=3, n_unique_action=3), dict(n_unique_action=((1, 3, 10), (0, -1, 1.5, "3", None)))))
    for cl, base, args in spec:
        for arg, (good, bad) in args.items():
            for v in good:
                with c.case("ctor-ok/%s(%s=%r)" % (cl.__name__, arg, v)):
                    cl(**{**base, arg: v})
                    c.step()
            for v in bad:
                with c.case("ctor/%s(%s=%r)" % (cl.__name__, arg, v)):
                    c.rejects(lambda: cl(**{**base, arg: v}), "%s(%s=%r)" % (cl.__name__, arg, v))
                    c.step()


FB = {"discrete": ("action", "reward", "position", "pscore"), "multi": ("action", "reward", "position", "pscore", "pscore_avg", "stratum_idx"),
      "slate": ("slate_id", "action", "reward", "position", "pscore", "pscore_cascade", "pscore_item_position"), "continuous": ("action_by_behavior_policy", "reward", "pscore")}


def front(c, family, names):
    from obp import ope

    cls = dict(discrete=ope.OffPolicyEvaluation, multi=ope.MultiLoggersOffPolicyEvaluation, slate=ope.SlateOffPolicyEvaluation, continuous=ope.ContinuousOffPolicyEvaluation)[family]
    sy = systems(family)
    for name in names:
        b, kw, roles, info = sy[name]
        n = len(kw.get("reward", np.ones(7)))
        defaults = dict(context=np.ones((n, 2)), reward=np.ones(n), action=np.zeros(n, dtype=int), pscore=np.full(n, 0.5), pscore_avg=np.full(n, 0.5), position=None, stratum_idx=np.arange(n) % 2)
        if family == "slate":
            defaults = dict(context=np.ones((n, 2)), action=kw.get("action", np.zeros(n, dtype=int)))
        if family == "continuous":
            defaults = {}

        def run(k, method):
            fb = dict(defaults)
            for x in FB[family]:
                if x in k:
                    fb["action" if x == "action_by_behavior_policy" else x] = k[x]
                elif x in kw:
                    fb.pop("action" if x == "action_by_behavior_policy" else x, None)
            args = {x: v for x, v in k.items() if x not in FB[family]}
            fe = cls(bandit_feedback=fb, ope_estimators=[b()])
            if method == "values":
                return fe.estimate_policy_values(**args)
            if method == "intervals":
                return fe.estimate_intervals(n_bootstrap_samples=2, random_state=0, **args)
            if method == "summary":
                return fe.summarize_off_policy_estimates(n_bootstrap_samples=2, random_state=0, **args)
            return fe.evaluate_performance_of_estimators(ground_truth_policy_value=1.0, **args)

        for method in ("values", "intervals", "summary", "performance"):
            with c.case("front-ok", est=name, method=method):
                run(kw, method)
                c.step()
            for arg, role in roles.items():
                for fname, val in role_faults(role, kw[arg], info):
                    if method in ("summary", "performance") and ("[" in fname and "[0" not in fname):
                        continue
                    with c.case("front/%s/%s/%s" % (method, arg, fname), est=name):
                        bad = apply(kw, [(arg, val)])
                        c.rejects(lambda: run(bad, method), "%s front end %s, %s: %s" % (name, method, arg, fname),
                                  exc=(ValueError, TypeError, RuntimeError) if val is DROP else (ValueError, TypeError))
                        c.step()


def preload():
    import obp.ope  # noqa: F401


def jobs(tier):
    out = [("constructors", (w,)) for w in ("discrete", "multi", "tuning", "other")]
    for fam in ("discrete", "multi", "slate", "continuous"):
        out.append(("interval_args", (fam,)))
        names = list(systems(fam))
        for i in range(8):
            part = names[i::8]
            if part:
                out.append(("single", (fam, part)))
                out.append(("groups", (fam, part)))
                out.append(("large", (fam, part)))
                out.append(("front", (fam, part)))
                out.append(("pairs", (fam, part, tier == "thorough")))
    return out
