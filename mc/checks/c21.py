"""C21: Open Bandit Dataset loader over all small log files written to a scratch directory."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.rng import PathRNG, all_paths

ID = "C21"
RULE = ("all row orders of small log files (distinct and tied timestamps, two timestamp styles), all position layouts, all split fractions of a grid, all bootstrap index sequences; every feedback row is traced back to its file row by a unique propensity")
BOUNDS = {"quick": "4-row files: all 24 orders x 4 layouts x policy/campaign names; 5-row splits at 13 fractions; every bootstrap sequence for 3 rows; 200-row ladder; bundled small data", "thorough": "5-row files (120 orders), bootstrap of 4 rows"}
ASSUMPTIONS = ["every position 1..L occurs in the log; rows with equal timestamps may come in either order"]

ITEMS = [(0, -0.5, "b", "x", "p"), (1, 0.25, "a", "y", "p"), (2, 1.5, "c", "x", "q"), (3, 0.0, "a", "x", "r")]


class Files:
    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.d = tempfile.mkdtemp(prefix="obd", dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, rows, policy, campaign, items=ITEMS, feats=2):
        p = os.path.join(self.d, policy, campaign)
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, campaign + ".csv"), "w") as f:
            f.write(",timestamp,item_id,position,click,propensity_score," + ",".join("user_feature_%d" % k for k in range(feats)) + "\n")
            for i, r in enumerate(rows):
                f.write(",".join([str(i), r["t"], str(r["a"]), str(r["p"]), str(r["r"]), repr(r["ps"])] + list(r["u"][:feats])) + "\n")
        with open(os.path.join(p, "item_context.csv"), "w") as f:
            f.write(",item_id,item_feature_0,item_feature_1,item_feature_2,item_feature_3\n")
            for i, it in enumerate(items):
                f.write(",".join([str(i)] + [str(x) for x in it]) + "\n")


def stamp(k, style):
    return "2019-11-24 0%d:0%d:00%s+00:00" % (k // 6, k % 6, ".%06d" % (k * 137 + 1) if style else "")


def mk_rows(times, actions, positions, style=0):
    n = len(times)
    return [dict(t=stamp(times[i], style), k=times[i], a=actions[i], p=positions[i], r=(i * 3 + 1) % 2, ps=0.01 * (i + 1), u=["u%d" % (i % 3), "v%d" % ((i // 2) % 2)]) for i in range(n)]


def ref_context(rows, feats=2):
    cols = []
    for k in range(feats):
        cats = sorted({r["u"][k] for r in rows})
        for x in cats[1:]:
            cols.append((k, x))
    return lambda r: [float(r["u"][k] == x) for k, x in cols]


def ref_items(items=ITEMS):
    out = []
    for it in items:
        out.append([float(sorted({j[c] for j in items}).index(it[c])) for c in (2, 3, 4)] + [float(it[1])])
    return np.array(out)


def check_rows(c, f, rows, what, order=None):
    """every feedback row is a whole file row; returns the file rows in feedback order"""
    n = f["n_rounds"]
    for k in ("action", "position", "reward", "pscore", "context"):
        c.same(np.asarray(f[k]).shape[0], int(n), "%s: length of %s" % (what, k))
    ctx = ref_context(rows)
    got = []
    for i in range(int(n)):
        j = int(round(float(f["pscore"][i]) * 100)) - 1
        c.true(0 <= j < len(rows), "%s: propensity %r is not in the file" % (what, f["pscore"][i]))
        r = rows[j]
        c.close(f["pscore"][i], r["ps"], "%s: propensity" % what)
        c.same(int(f["action"][i]), r["a"], "%s: action of file row %d" % (what, j))
        c.same(int(f["position"][i]), r["p"] - 1, "%s: position of file row %d" % (what, j))
        c.close(float(f["reward"][i]), float(r["r"]), "%s: reward of file row %d" % (what, j))
        c.close(np.asarray(f["context"][i], dtype=float), ctx(r), "%s: context of file row %d" % (what, j))
        got.append(j)
    c.close(np.asarray(f["action_context"], dtype=float), ref_items(), "%s: action context" % what)
    return got


LAYOUT = [[1, 2, 3, 1, 2, 3], [1, 1, 1, 1, 1, 1], [2, 1, 2, 1, 1, 2], [3, 1, 2, 2, 3, 1]]


def orders(c, n, policy, campaign):
    from pathlib import Path

    from obp.dataset import OpenBanditDataset

    with Files() as fs:
        for k, perm in enumerate(itertools.permutations(range(n))):
            for lay in range(4):
                for ties in (0, 1, 2):
                    times = [t if ties == 0 else (t // 2 if ties == 1 else min(t, 1)) for t in perm]
                    acts = [(3, 0, 1, 2, 1, 0)[(i + k) % 6] for i in range(n)]
                    if 3 not in acts:
                        acts[k % n] = 3
                    rows = mk_rows(times, acts, LAYOUT[lay][:n], style=k % 2)
                    fs.write(rows, policy, campaign)
                    with c.case("file", policy=policy, campaign=campaign, times=times, actions=acts, positions=LAYOUT[lay][:n]):
                        ds = OpenBanditDataset(behavior_policy=policy, campaign=campaign, data_path=fs.d if k % 2 else Path(fs.d))
                        f = ds.obtain_batch_bandit_feedback()
                        c.step()
                        c.same(int(ds.n_rounds), n, "n_rounds")
                        c.same(int(ds.n_actions), 4, "n_actions")
                        c.same(int(f["n_actions"]), 4, "n_actions of the feedback")
                        c.same(int(ds.len_list), max(LAYOUT[lay][:n]), "len_list")
                        got = check_rows(c, f, rows, "feedback")
                        c.same(sorted(got), list(range(n)), "every file row exactly once")
                        c.true(all(rows[a]["k"] <= rows[b]["k"] for a, b in zip(got, got[1:])), "time order: %s" % [rows[j]["t"] for j in got])
                        c.same(int(ds.dim_context), np.shape(f["context"])[1], "dim_context")
                        c.close(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=policy, campaign=campaign, data_path=Path(fs.d)), sum(r["r"] for r in rows) / n, "on-policy value")
                        c.step()


def splits(c, n):
    from pathlib import Path

    from obp.dataset import OpenBanditDataset

    with Files() as fs:
        for k, perm in enumerate(list(itertools.permutations(range(n)))[:: 7 if n == 5 else 1]):
            rows = mk_rows(perm, [(3, 0, 1, 2, 1, 0)[(i + k) % 6] if i else 3 for i in range(n)], LAYOUT[k % 4][:n])
            fs.write(rows, "random", "men")
            ds = OpenBanditDataset(behavior_policy="random", campaign="men", data_path=Path(fs.d))
            by_time = sorted(range(n), key=lambda j: rows[j]["k"])
            for frac in (0.0, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 1.0):
                with c.case("split", times=perm, test_size=frac):
                    tr, te = ds.obtain_batch_bandit_feedback(test_size=frac, is_timeseries_split=True)
                    c.step()
                    a, b = check_rows(c, tr, rows, "training part"), check_rows(c, te, rows, "test part")
                    c.same(a + b, by_time, "training rows followed by test rows are the log in time order")
                    c.true(abs(len(b) - n * frac) < 1 + 1e-9, "test part has %d of %d rows for test_size=%g" % (len(b), n, frac))
                    if b:
                        c.close(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy="random", campaign="men", data_path=Path(fs.d), test_size=frac, is_timeseries_split=True), sum(rows[j]["r"] for j in b) / len(b), "on-policy value of the test part")
                    whole = ds.obtain_batch_bandit_feedback(test_size=frac, is_timeseries_split=False)
                    c.same(check_rows(c, whole, rows, "unsplit"), by_time, "unsplit log")
                    # the view handed out earlier is not disturbed by bootstrap sampling
                    ds.sample_bootstrap_bandit_feedback(test_size=frac, random_state=1)
                    c.same(check_rows(c, ds.obtain_batch_bandit_feedback(), rows, "after bootstrap"), by_time, "log after bootstrap sampling")


def bootstrap(c, n):
    from collections import Counter
    from pathlib import Path

    from obp.dataset import OpenBanditDataset

    with Files() as fs:
        perm = [2, 0, 3, 1][:n] if n != 3 else [2, 0, 1]
        rows = mk_rows(perm, [3, 0, 1, 2][:n], [1, 2, 1, 2][:n])
        fs.write(rows, "bts", "women")
        ds = OpenBanditDataset(behavior_policy="bts", campaign="women", data_path=Path(fs.d))
        by_time = sorted(range(n), key=lambda j: rows[j]["k"])
        for size, split in itertools.product([None] + list(range(0, n + 1)), (None, 0.34, 0.5)):
            m = n if split is None else len(ds.obtain_batch_bandit_feedback(test_size=split, is_timeseries_split=True)[0]["action"])
            if size is not None and size > m:
                continue
            with c.case("bootstrap", n=n, sample_size=size, split=split):
                cnt = Counter()
                rng = PathRNG()

                def run():
                    kw = {} if split is None else dict(test_size=split, is_timeseries_split=True)
                    f = ds.sample_bootstrap_bandit_feedback(sample_size=size, random_state=rng, **kw)
                    return tuple(check_rows(c, f, rows, "bootstrap sample"))

                for p, g in all_paths(rng, run):
                    cnt[g] += p
                    c.step()
                k = m if size is None else size
                exp = set(itertools.product(by_time[:m], repeat=k))
                c.same(set(cnt), exp, "set of possible samples")
                c.true(len(set(cnt.values())) <= 1, "all samples equally likely")
        for s in (1, 5):
            with c.case("bootstrap-seed", seed=s):
                a, b = (ds.sample_bootstrap_bandit_feedback(random_state=s) for _ in range(2))
                c.same(check_rows(c, a, rows, "a"), check_rows(c, b, rows, "b"), "equal seeds")
        for bad in (-1, n + 1, 1.5, "a"):
            with c.case("bootstrap-malformed", sample_size=bad):
                c.rejects(lambda: ds.sample_bootstrap_bandit_feedback(sample_size=bad, random_state=1), "sample_size=%r" % (bad,))


def ladder(c):
    from pathlib import Path

    from obp.dataset import OpenBanditDataset

    with Files() as fs:
        for n, seed in itertools.product((30, 60), (0, 1)):
            rs = np.random.RandomState(seed)
            times = list(rs.randint(0, 36, n))
            acts = list(rs.randint(0, 4, n))
            acts[0] = 3
            rows = mk_rows(times, [int(a) for a in acts], [int(i % 3) + 1 for i in range(n)], style=seed)
            fs.write(rows, "random", "all")
            with c.case("ladder", n=n, seed=seed):
                ds = OpenBanditDataset(behavior_policy="random", campaign="all", data_path=Path(fs.d))
                got = check_rows(c, ds.obtain_batch_bandit_feedback(), rows, "feedback")
                c.same(sorted(got), list(range(n)), "every row once")
                c.true(all(rows[a]["t"] <= rows[b]["t"] for a, b in zip(got, got[1:])), "time order")
                for frac in (0.1, 0.3, 0.55, 0.9):
                    tr, te = ds.obtain_batch_bandit_feedback(test_size=frac, is_timeseries_split=True)
                    a, b = check_rows(c, tr, rows, "train"), check_rows(c, te, rows, "test")
                    c.same(a + b, got, "split")
                    c.true(abs(len(b) - n * frac) < 1 + 1e-9, "test part has %d of %d rows for test_size=%g" % (len(b), n, frac))
                f = ds.sample_bootstrap_bandit_feedback(random_state=3, sample_size=n // 2)
                check_rows(c, f, rows, "bootstrap")
                c.step(6)


def long(c, n, width, seed):
    """long files with many items, feature values and an arbitrary index column, compared column by column"""
    from pathlib import Path

    from obp.dataset import OpenBanditDataset

    rs = np.random.RandomState(seed)
    nit = 80
    t = rs.permutation(3 * n)[:n]
    a, p, r = rs.randint(0, nit, n), rs.randint(1, 4, n), rs.randint(0, 2, n) if seed % 2 == 0 else rs.randint(-2, 7, n) / 2.0
    a[0] = nit - 1
    ps = (np.arange(n) + 1) / (4.0 * n)
    u = [["h%05d" % ((i * 31 + 7) % width), "g%d" % (i % 4), "k%d" % (i % 3 == 0), "w%d" % rs.randint(12)] for i in range(n)]
    items = [(k, 0.1 * k - 3, "c%d" % ((k * 7) % 23), "d%d" % (k % 5), "e%d" % (k * k % 11)) for k in range(nit)]
    with Files() as fs:
        d = os.path.join(fs.d, "bts", "all")
        os.makedirs(d)
        idx = rs.permutation(n)
        with open(os.path.join(d, "all.csv"), "w") as f:
            f.write(",timestamp,item_id,position,click,propensity_score,user_feature_0,user_feature_1,user_feature_2,user_feature_3\n")
            for i in range(n):
                s = int(t[i])
                f.write("%d,2019-11-%02d %02d:%02d:%02d.%06d+00:00,%d,%d,%r,%r,%s\n" % (idx[i], 24 + s // 86400, s // 3600 % 24, s // 60 % 60, s % 60, s * 7 % 1000000, a[i], p[i], r[i].item(), float(ps[i]), ",".join(u[i])))
        with open(os.path.join(d, "item_context.csv"), "w") as f:
            f.write(",item_id,item_feature_0,item_feature_1,item_feature_2,item_feature_3\n")
            for i, it in enumerate(items):
                f.write(",".join([str(i)] + [str(x) for x in it]) + "\n")
        with c.case("long", n=n, width=width, seed=seed):
            ds = OpenBanditDataset(behavior_policy="bts", campaign="all", data_path=Path(fs.d))
            cats = [sorted({x[k] for x in u})[1:] for k in range(4)]
            ctx = np.concatenate([np.array([[x[k] == v for v in cats[k]] for x in u], dtype=float).reshape(n, -1) for k in range(4)], axis=1)

            def cols(f, exp, what):
                c.same(int(f["n_rounds"]), len(exp), what + ": n_rounds")
                c.same(int(f["n_actions"]), nit, what + ": n_actions")
                for key, e in (("pscore", ps), ("action", a), ("position", p - 1), ("reward", r), ("context", ctx)):
                    c.close(np.asarray(f[key], dtype=float), np.asarray(e, dtype=float)[exp], "%s: %s" % (what, key))
                c.close(np.asarray(f["action_context"], dtype=float), ref_items(items), what + ": action context")

            order = np.argsort(t)
            cols(ds.obtain_batch_bandit_feedback(), order, "feedback")
            c.step()
            for frac in (0.01, 0.3, 0.77, 0.999):
                tr, te = ds.obtain_batch_bandit_feedback(test_size=frac, is_timeseries_split=True)
                m = int(tr["n_rounds"])
                c.true(abs(n - m - n * frac) < 1 + 1e-9, "test part has %d of %d rows" % (n - m, n))
                cols(tr, order[:m], "train %g" % frac)
                cols(te, order[m:], "test %g" % frac)
                c.close(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy="bts", campaign="all", data_path=Path(fs.d), test_size=frac, is_timeseries_split=True), r[order[m:]].mean(), "on-policy value")
                for size in (None, 5, m - 1):
                    if size is not None and not 0 <= size <= m:
                        continue
                    f = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=frac, is_timeseries_split=True, random_state=7)
                    got = np.rint(np.asarray(f["pscore"]) * 4 * n).astype(int) - 1
                    c.true(set(got) <= set(order[:m]), "bootstrap rows come from the training part")
                    cols(f, got, "bootstrap of %r rows" % size)
                    c.same(len(got), m if size is None else size, "bootstrap size")
                    if m > 500 and size is None:  # every quarter of the period is represented (binomial, > 12 sigma)
                        pos = {j: q for q, j in enumerate(order)}
                        q = np.bincount([min(3, 4 * pos[j] // m) for j in got], minlength=4) / m
                        c.true((abs(q - 0.25) < 0.1).all(), "bootstrap rows by quarter of the period: %s" % q)
                    c.step()


def bundled(c):
    from obp.dataset import OpenBanditDataset

    for pol, camp in itertools.product(("bts", "random"), ("all", "men", "women")):
        import obp.dataset.real as R

        path = os.path.join(os.path.dirname(R.__file__), "obd", pol, camp, camp + ".csv")
        if not os.path.exists(path):
            continue
        with c.case("bundled", policy=pol, campaign=camp):
            import csv

            ds = OpenBanditDataset(behavior_policy=pol, campaign=camp)
            f = ds.obtain_batch_bandit_feedback()
            c.step()
            raw = list(csv.DictReader(open(path)))
            raw.sort(key=lambda r: r["timestamp"])
            n = len(raw)
            c.same(int(f["n_rounds"]), n, "n_rounds")
            key = lambda t, a, p, r, s: (t, int(a), int(p), float(r), round(float(s), 9))
            exp = sorted(key(r["timestamp"], r["item_id"], int(r["position"]) - 1, r["click"], r["propensity_score"]) for r in raw)
            got = sorted(key(raw[i]["timestamp"], f["action"][i], f["position"][i], f["reward"][i], f["pscore"][i]) for i in range(n))
            c.true(got == exp, "rows differ from the file in time order")
            c.close(OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=pol, campaign=camp), sum(float(r["click"]) for r in raw) / n, "on-policy value")


def malformed(c):
    from obp.dataset import OpenBanditDataset as O

    with Files() as fs:
        fs.write(mk_rows([0, 1, 2, 3], [0, 1, 2, 3], [1, 2, 3, 1]), "random", "all")
        base = dict(behavior_policy="random", campaign="all", data_path=fs.d)
        with c.case("wellformed"):
            ds = O(**base)
        for k, v in (("behavior_policy", "foo"), ("behavior_policy", None), ("campaign", "kids"), ("campaign", None), ("data_path", 3), ("data_path", ["a"])):
            with c.case("malformed", arg=k, value=v):
                c.rejects(lambda: O(**dict(base, **{k: v})), "%s=%r" % (k, v))
        for v in (-0.1, 1.1, "a", None, 1):
            with c.case("malformed-test_size", value=v):
                c.rejects(lambda: ds.obtain_batch_bandit_feedback(test_size=v, is_timeseries_split=True), "test_size=%r" % (v,))
        for v in (0, "a", None):
            with c.case("malformed-split-flag", value=v):
                c.rejects(lambda: ds.obtain_batch_bandit_feedback(is_timeseries_split=v), "is_timeseries_split=%r" % (v,))


def jobs(tier):
    deep = tier == "thorough"
    J = [("orders", (5 if deep else 4, p, cm)) for p in ("bts", "random") for cm in ("all", "men", "women")]
    J += [("splits", (n,)) for n in (1, 2, 3, 4, 5)] + [("bootstrap", (n,)) for n in ((2, 3, 4) if deep else (2, 3))] + [("ladder", ()), ("long", (1200, 150, 0)), ("long", (13000, 40, 1)), ("bundled", ()), ("malformed", ())]
    return J
