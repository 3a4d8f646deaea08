"""C02: exact unbiasedness, by enumerating every log a small bandit world can produce."""
import itertools
from fractions import Fraction as F

import numpy as np

ID = "C02"
RULE = ("for each finite world (context distribution, logging policy/policies, evaluation policy, reward law, reward model) every log of n rounds with "
        "non-zero probability is built, evaluated by the real estimator and weighted by its exact probability; the sum must equal the exact policy value")
BOUNDS = {"quick": "2 contexts, 2-3 actions, 1-2 positions, Bernoulli-type rewards, n<=2 rounds (slates: L<=2, n<=2); 2-3 worlds x 3 reward models each",
          "thorough": "as quick with n<=3 for discrete/multi-logger worlds, 3 positions for slates"}
ASSUMPTIONS = ["coverage: the logging policy has positive probability wherever the evaluation policy has"]
H = F(1, 2)


def worlds():
    """(p_x, pi_b[x][a], pi_e[x][a], q[x][a]) with reward = lo or hi w.p. giving mean q"""
    out = []
    out.append(dict(px=[F(1, 4), F(3, 4)], pb=[[F(1, 4), F(3, 4)], [H, H]], pe=[[F(1), F(0)], [F(1, 4), F(3, 4)]],
                    q=[[H, F(1, 4)], [F(3, 4), F(1)]], lo=F(0), hi=F(1)))
    out.append(dict(px=[H, H], pb=[[F(1, 8), F(5, 8), F(1, 4)], [F(1, 2), F(0), F(1, 2)]], pe=[[F(1, 2), F(1, 2), F(0)], [F(3, 4), F(0), F(1, 4)]],
                    q=[[F(-1), F(2), H], [F(0), F(3), F(1)]], lo=F(-2), hi=F(4)))
    out.append(dict(px=[F(1)], pb=[[F(1, 16), F(15, 16)]], pe=[[F(15, 16), F(1, 16)]], q=[[F(5), F(-3)]], lo=F(-8), hi=F(8)))
    # rare actions: weights up to 2^15
    out.append(dict(px=[F(3, 4), F(1, 4)], pb=[[F(1, 1024), F(1023, 1024)], [1 - F(1, 2**16), F(1, 2**16)]], pe=[[H, H], [F(1, 4), F(3, 4)]],
                    q=[[H, F(-1, 4)], [F(3, 4), F(1)]], lo=F(-1), hi=F(2)))
    # large and tiny reward scales
    out.append(dict(px=[F(1, 4), F(3, 4)], pb=[[F(1, 512), F(511, 512)], [H, H]], pe=[[F(1), F(0)], [F(1, 4), F(3, 4)]],
                    q=[[F(2**20), F(-2**21)], [F(2**22), F(1)]], lo=F(-2**22), hi=F(2**23)))
    u = F(1, 2**24)
    out.append(dict(px=[H, H], pb=[[F(1, 8), F(3, 8), H], [F(1, 256), F(3, 4), F(63, 256)]], pe=[[H, F(1, 4), F(1, 4)], [F(3, 4), F(1, 8), F(1, 8)]],
                    q=[[u, 2 * u, 3 * u], [4 * u, F(0), u]], lo=-4 * u, hi=8 * u))
    return out


def scale(w):
    return float(max(abs(w["lo"]), abs(w["hi"])))


def qhats(nx, na):
    z = [[0.0] * na for _ in range(nx)]
    a = [[(x * 3 + k * 2) % 5 - 1.5 for k in range(na)] for x in range(nx)]
    b = [[7.0 * (k == 0) - 2.0 * x for k in range(na)] for x in range(nx)]
    return [z, a, b]


def rew(w, x, a):
    pr = (w["q"][x][a] - w["lo"]) / (w["hi"] - w["lo"])
    return [(r, p) for r, p in ((w["lo"], 1 - pr), (w["hi"], pr)) if p > 0]


def round_outcomes(w, pb):
    out = []
    for x, px in enumerate(w["px"]):
        for a, pa in enumerate(pb[x]):
            if pa == 0:
                continue
            for r, pr in rew(w, x, a):
                out.append((px * pa * pr, x, a, r, pa))
    return out


def value(w):
    return sum(px * sum(w["pe"][x][a] * w["q"][x][a] for a in range(len(w["q"][x]))) for x, px in enumerate(w["px"]))


def mklog(w, rounds, qh):
    return dict(reward=np.array([float(o[3]) for o in rounds]), action=np.array([o[2] for o in rounds]),
                pscore=np.array([float(o[4]) for o in rounds]),
                action_dist=np.array([[float(v) for v in w["pe"][o[1]]] for o in rounds])[:, :, None],
                estimated_rewards_by_reg_model=np.array([qh[o[1]] for o in rounds])[:, :, None])


def discrete(c, iw, n, iq):
    from obp import ope

    w = worlds()[iw]
    qh = qhats(len(w["px"]), len(w["q"][0]))[iq]
    big = max(float(max(e / b for e, b in zip(re, rb) if b > 0)) for re, rb in zip(w["pe"], w["pb"]))
    ests = [ope.InverseProbabilityWeighting(), ope.DoublyRobust(), ope.SwitchDoublyRobust(), ope.DoublyRobustWithShrinkage(lambda_=np.inf),
            ope.SubGaussianInverseProbabilityWeighting(), ope.SubGaussianDoublyRobust(), ope.InverseProbabilityWeighting(lambda_=max(100.0, big)),
            ope.DoublyRobust(lambda_=max(64, big)), ope.SwitchDoublyRobust(lambda_=max(16, big))]
    tot = [0.0] * len(ests)
    mass = F(0)
    with c.case("world", world=iw, n=n, q_hat=qh):
        outs = round_outcomes(w, w["pb"])
        for rounds in itertools.product(outs, repeat=n):
            p = F(1)
            for o in rounds:
                p *= o[0]
            mass += p
            log = mklog(w, rounds, qh)
            c.state([(o[1:4]) for o in rounds])
            for j, e in enumerate(ests):
                v = float(e.estimate_policy_value(**log))
                tot[j] += float(p) * v
                c.step()
                c.outcome((j, round(v, 6)))
        assert mass == 1
        V = float(value(w))
        for j, e in enumerate(ests):
            c.close(tot[j], V, "expected value of %s over all logs" % e.estimator_name, rtol=1e-9, atol=1e-10 * max(scale(w), max(abs(v) for r in qh for v in r)))


def positions(c, iw, n):
    """two positions with different policies, position recorded per round"""
    from obp import ope

    w = worlds()[iw]
    A = len(w["q"][0])
    w2 = dict(w, pe=[list(reversed(r)) if all(b > 0 for b in w["pb"][x]) else r for x, r in enumerate(w["pe"])])
    pos_p = [F(1, 4), F(3, 4)]
    ests = [ope.InverseProbabilityWeighting(), ope.DoublyRobust()]
    qh = [qhats(len(w["px"]), A)[1], qhats(len(w["px"]), A)[2]]
    tot = [0.0, 0.0]
    with c.case("positions", world=iw, n=n):
        outs = []
        for l, ww in enumerate((w, w2)):
            for o in round_outcomes(ww, ww["pb"]):
                outs.append((o[0] * pos_p[l],) + o[1:] + (l,))
        for rounds in itertools.product(outs, repeat=n):
            p = F(1)
            for o in rounds:
                p *= o[0]
            log = dict(reward=np.array([float(o[3]) for o in rounds]), action=np.array([o[2] for o in rounds]),
                       pscore=np.array([float(o[4]) for o in rounds]), position=np.array([o[5] for o in rounds]),
                       action_dist=np.array([[[float(w["pe"][o[1]][a]), float(w2["pe"][o[1]][a])] for a in range(A)] for o in rounds]),
                       estimated_rewards_by_reg_model=np.array([[[qh[0][o[1]][a], qh[1][o[1]][a]] for a in range(A)] for o in rounds]))
            c.state([o[1:] for o in rounds])
            for j, e in enumerate(ests):
                tot[j] += float(p) * float(e.estimate_policy_value(**log))
                c.step()
        V = float(pos_p[0] * value(w) + pos_p[1] * value(w2))
        for j, e in enumerate(ests):
            c.close(tot[j], V, "expected value of %s with positions" % e.estimator_name, atol=1e-10 * max(scale(w), 10 if j else 0))


def multi(c, iw, counts, iq):
    from obp import ope

    w = worlds()[iw]
    nx, na = len(w["px"]), len(w["q"][0])
    pbs = [w["pb"], [[F(1, na)] * na for _ in range(nx)], w["pb"]][: len(counts)]
    n = sum(counts)
    qh = qhats(nx, na)[iq]
    ests = [ope.MultiLoggersNaiveInverseProbabilityWeighting(), ope.MultiLoggersBalancedInverseProbabilityWeighting(),
            ope.MultiLoggersNaiveDoublyRobust(), ope.MultiLoggersBalancedDoublyRobust()]
    tot = [0.0] * 4
    avg = [[sum(F(k, n) * pbs[j][x][a] for j, k in enumerate(counts)) for a in range(na)] for x in range(nx)]
    strata = [k for k, m in enumerate(counts) for _ in range(m)]
    with c.case("multi", world=iw, counts=counts, q_hat=qh):
        for rounds in itertools.product(*[round_outcomes(w, pbs[k]) for k in strata]):
            p = F(1)
            for o in rounds:
                p *= o[0]
            log = mklog(w, rounds, qh)
            log.update(stratum_idx=np.array(strata), pscore_avg=np.array([float(avg[o[1]][o[2]]) for o in rounds]))
            c.state([o[1:4] for o in rounds])
            for j, e in enumerate(ests):
                v = float(e.estimate_policy_value(**log))
                tot[j] += float(p) * v
                c.step()
                c.outcome((j, round(v, 6)))
        for j, e in enumerate(ests):
            c.close(tot[j], float(value(w)), "expected value of %s" % e.estimator_name, atol=1e-10 * max(scale(w), max(abs(v) for r in qh for v in r)))


def embed(c, iw, n, D=1):
    """marginalised IPW: reward depends on the action only through its D-dimensional embedding"""
    w = worlds()[iw]
    nx, na = len(w["px"]), len(w["q"][0])
    pea = [[[F(1, 4), F(3, 4)], [F(1), F(0)], [H, H]][:na], [[H, H], [F(1, 8), F(7, 8)], [F(0), F(1)]][:na]][:D]
    embs = list(itertools.product(range(2), repeat=D))

    def pe_a(a, em):
        p = F(1)
        for d in range(D):
            p *= pea[d][a][em[d]]
        return p

    def qe(x, em):
        return F((x + 1 + 2 * em[0] + (3 * em[-1] if D > 1 else 0)) % 5, 5)

    from obp.ope import MarginalizedInverseProbabilityWeighting as M

    e = M(n_actions=na)
    outs = []
    for x, px in enumerate(w["px"]):
        for a in range(na):
            if w["pb"][x][a] == 0:
                continue
            for em in embs:
                if pe_a(a, em) == 0:
                    continue
                for r, pr in ((0, 1 - qe(x, em)), (1, qe(x, em))):
                    if pr:
                        outs.append((px * w["pb"][x][a] * pe_a(a, em) * pr, x, a, em, r))
    tot = 0.0
    V = float(sum(px * w["pe"][x][a] * pe_a(a, em) * qe(x, em) for x, px in enumerate(w["px"]) for a in range(na) for em in embs))
    P = np.array([[[float(pea[d][a][k]) for d in range(D)] for k in range(2)] for a in range(na)])
    with c.case("embed", world=iw, n=n, D=D):
        for rounds in itertools.product(outs, repeat=n):
            p = F(1)
            for o in rounds:
                p *= o[0]
            v = e.estimate_policy_value(
                reward=np.array([float(o[4]) for o in rounds]), action=np.array([o[2] for o in rounds]),
                action_embed=np.array([o[3] for o in rounds]), p_e_a=P,
                pi_b=np.array([[float(v) for v in w["pb"][o[1]]] for o in rounds])[:, :, None],
                action_dist=np.array([[float(v) for v in w["pe"][o[1]]] for o in rounds])[:, :, None])
            c.state([o[1:] for o in rounds])
            c.step()
            tot += float(p) * float(v)
        c.close(tot, V, "expected value of MIPW", atol=1e-9)


# ---- slates ---------------------------------------------------------------
def slate_world(iw, A, L):
    """sequential policies without replacement given per-context preference weights; L ordered distinct actions"""
    wb = [[F(1), F(2), F(1), F(4)][:A], [F(2), F(1), F(3), F(1)][:A]]
    we = [[F(4), F(1), F(0), F(1)][:A], [F(1), F(1), F(5), F(2)][:A]]
    if A - 1 < L:  # every action is needed to fill the slate: no zero preferences
        we = [[max(v, F(1, 4)) for v in row] for row in we]
    if iw == 2:  # rare slots
        wb = [[F(1, 64), F(2), F(1, 16), F(1)][:A], [F(3), F(1, 128), F(1), F(1, 32)][:A]]
    if iw == 1:
        wb, we = we, wb
        wb = [[max(v, F(1, 2)) for v in row] for row in wb]

    def cond(wt, prefix):
        tot = sum(v for a, v in enumerate(wt) if a not in prefix)
        return [F(0) if a in prefix or tot == 0 else v / tot for a, v in enumerate(wt)]

    return [F(1, 4), F(3, 4)], wb, we, cond


def slate(c, iw, A, L, n, structure):
    from obp import ope

    px, wb, we, cond = slate_world(iw, A, L)
    slates = list(itertools.permutations(range(A), L))

    def prefix_p(wt, s, l):
        p = F(1)
        for j in range(l + 1):
            p *= cond(wt, s[:j])[s[j]]
        return p

    def marg(wt, a, l):
        return sum(prefix_p(wt, s, L - 1) for s in slates if s[l] == a)

    def qfun(x, s, l):
        if structure == "independent":
            return F((x + 2 * s[l] + l) % 4, 4)
        if structure == "cascade":
            return F((x + s[l] + 2 * sum(s[:l]) + l) % 5, 5)
        return F((x + s[l] + 3 * s[-1] + sum(k * a for k, a in enumerate(s))) % 5, 5)

    V = F(0)
    outs = []
    for x, pxv in enumerate(px):
        for s in slates:
            pe, pb = prefix_p(we[x], s, L - 1), prefix_p(wb[x], s, L - 1)
            if pe and not pb:
                raise AssertionError("coverage")
            V += pxv * pe * sum(qfun(x, s, l) for l in range(L))
            if not pb:
                continue
            # rewards in {0, 1} per position, independent given the slate
            for r in itertools.product((0, 1), repeat=L):
                pr = F(1)
                for l in range(L):
                    q = qfun(x, s, l)
                    pr *= q if r[l] else 1 - q
                if pr:
                    outs.append((pxv * pb * pr, x, s, r))
    ests = [("sips", ope.SlateStandardIPS(len_list=L))]
    if structure in ("independent",):
        ests.append(("iips", ope.SlateIndependentIPS(len_list=L)))
    if structure in ("independent", "cascade"):
        ests.append(("rips", ope.SlateRewardInteractionIPS(len_list=L)))
        ests.append(("cdr", ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)))
    tot = dict((k, 0.0) for k, _ in ests)
    # cache per-outcome columns
    cols = []
    for o in outs:
        _, x, s, r = o
        d = dict(reward=[float(v) for v in r], pscore=[float(prefix_p(wb[x], s, L - 1))] * L,
                 evaluation_policy_pscore=[float(prefix_p(we[x], s, L - 1))] * L,
                 pscore_cascade=[float(prefix_p(wb[x], s, l)) for l in range(L)],
                 evaluation_policy_pscore_cascade=[float(prefix_p(we[x], s, l)) for l in range(L)],
                 pscore_item_position=[float(marg(wb[x], s[l], l)) for l in range(L)],
                 evaluation_policy_pscore_item_position=[float(marg(we[x], s[l], l)) for l in range(L)],
                 action=list(s), q_hat=[((a * 2 + x + l + sum(s[:l])) % 4) / 2.0 - 0.5 for l in range(L) for a in range(A)],
                 evaluation_policy_action_dist=[])
        for l in range(L):
            pc = cond(we[x], s[:l])
            if sum(pc) == 0:  # unreachable prefix under pi_e: any distribution will do
                pc = [F(1, A)] * A
            d["evaluation_policy_action_dist"] += [float(v) for v in pc]
        cols.append(d)
    with c.case("slate", world=iw, A=A, L=L, n=n, structure=structure):
        for idx in itertools.product(range(len(outs)), repeat=n):
            p = F(1)
            for k in idx:
                p *= outs[k][0]
            log = {key: np.concatenate([np.array(cols[k][key]) for k in idx]) for key in cols[0]}
            log["slate_id"] = np.repeat(np.arange(n), L)
            log["position"] = np.tile(np.arange(L), n)
            c.state(idx)
            for k, e in ests:
                v = float(e.estimate_policy_value(**log))
                tot[k] += float(p) * v
                c.step()
                c.outcome((k, round(v, 6)))
        for k, e in ests:
            c.close(tot[k], float(V), "expected value of %s under %s rewards" % (k, structure), atol=1e-9)


def jobs(tier):
    th = tier == "thorough"
    out = []
    for st in ("independent", "cascade", "general"):
        for iw in (0, 1, 2):
            out.append(("slate", (iw, 3, 2, 1, st)))
            out.append(("slate", (iw, 2, 2, 2, st)))
            out.append(("slate", (iw, 4, 2, 1, st)))
            out.append(("slate", (iw, 3, 3, 1, st)))
            if th:
                out.append(("slate", (iw, 3, 2, 2, st)))
                out.append(("slate", (iw, 4, 3, 1, st)))
    for iw in range(6):
        for iq in range(3):
            for n in (1, 2) + ((3,) if th else ()):
                out.append(("discrete", (iw, n, iq)))
            for counts in [(1, 1), (2, 1)] + ([(1, 2), (1, 1, 1)] if th else []):
                out.append(("multi", (iw, counts, iq)))
        out.append(("positions", (iw, 1)))
        out.append(("positions", (iw, 2)))
        out.append(("embed", (iw, 1)))
        out.append(("embed", (iw, 2)))
        out.append(("embed", (iw, 1, 2)))
        out.append(("embed", (iw, 2, 2)))
        if iw not in (1, 5):
            out.append(("discrete", (iw, 3, 1)))
    return out
