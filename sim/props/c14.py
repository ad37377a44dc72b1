"""C14  A data set is split the same way every time, into disjoint parts that keep rows and labels together.

The pools behind the data sets (downloads, bundled tables, files) are replaced by simulated ones whose rows
carry their own number, so that every split can be traced back.  Downloads fail and are retried, and other
code draws from the ambient generators in between.
"""
import csv
import os
import shutil
import tempfile

import numpy as np
import math

import torch

from .. import env, world as W
from ..core import Violation, thash
from ..faults import sut

ID = "C14"
N_QUICK = 1000
N_THOROUGH = 20000
RULE = "a run counts when a data set was loaded at least twice, with faults or other draws in between, and both loads were compared and traced"
REAL = ["get_datasets, generate_data, load_debd, get_data_shape", "scikit-learn splitting, scaling, PCA, torchvision transforms, torch random_split"]
STUBS = ["contents of MNIST, FashionMNIST, CIFAR10, SVHN, CelebA, LSUN, Flowers102, ImageFolder, LFWPeople, 20newsgroups, covtype, kddcup99, wine, "
         "breast cancer, digits, binary MNIST image, DEBD files (rows carry their number)", "downloads (may fail)"]
ASSUMPTIONS = [
    "pool sizes for which the code's rounded 90/10 lengths add up",
    "synthetic and fake data sets: repeatability, sizes and shapes only (the code draws their three parts from one fixed seed)",
    "celeba, flowers, tiny-imagenet, lsun test, lfw test: the upstream split is used as it is",
]
PROBES = ["image pool", "table", "synthetic", "files", "download failed", "text", "binary image", "normalised", "fake", "held-out rows changed"]
TIME_UNIT = "rows traced"
PRELOAD = ("exp_utils",)

SINGLE = {"mnist": "MNIST", "mnist-32": "MNIST", "mnist-16": "MNIST", "fmnist": "FashionMNIST", "fmnist-32": "FashionMNIST", "cifar": "CIFAR10",
          "svhn": "SVHN", "svhn-extra": "SVHN", "lsun": "LSUN", "lfw": "LFWPeople"}
UPSTREAM = {"celeba": "CelebA", "celeba-small": "CelebA", "celeba-tiny": "CelebA", "flowers": "Flowers102", "tiny-imagenet": "ImageFolder"}
TABLES = ("covtype", "kddcup99", "breast_cancer", "wine", "digits")
SYNTH = ("synth-2-clusters", "synth-3-clusters", "synth-9-clusters", "synth-2-moons", "synth-circles", "synth-aniso", "synth-varied")
# the widths the files upstream have
DEBD = dict(accidents=111, ad=1556, baudio=100, bbc=1058, bnetflix=100, book=500, c20ng=910, cr52=889, cwebkb=839, dna=180, jester=100, kdd=64, kosarek=190, moviereview=1001, msnbc=17,
            msweb=294, nltcs=16, plants=69, pumsb_star=163, tmovie=500, tretail=135, voting=1359)


def gen(rng, i):
    t = rng.random()
    if t < 0.4:
        ds = rng.choice(sorted(SINGLE))
    elif t < 0.5:
        ds = rng.choice(sorted(UPSTREAM))
    elif t < 0.72:
        ds = rng.choice(TABLES)
    elif t < 0.84:
        ds = rng.choice(SYNTH)
    elif t < 0.93:
        ds = rng.choice(sorted(DEBD))
    elif t < 0.96:
        ds = "20newsgroup"
    elif t < 0.98:
        ds = "fake"
    else:
        ds = "mnist-bin"
    return {"seed": rng.randrange(1 << 30), "ds": ds, "n": 10 * rng.randint(2, 20), "nt": rng.randint(3, 30), "norm": rng.random() < 0.5,
            "noise": [rng.randrange(1 << 30) for _ in range(3)], "fail": rng.choice([None, None, 1, 2, 3]), "pool": rng.randrange(1 << 30)}


# ---------------------------------------------------------------- simulated pools


class World:
    """What the download servers hold."""

    def __init__(self, plan, scratch):
        self.plan, self.scratch, self.made = plan, scratch, 0
        self.fail = plan["fail"]

    def tick(self, ctx):
        self.made += 1
        if self.fail is not None and self.made == self.fail:
            self.fail = None
            ctx.fault("download-failed")
            ctx.probe("download failed")
            raise OSError(110, "simulated: connection timed out")


def image(num, rgb):
    """A constant image that encodes a row number below 256."""
    from PIL import Image

    return Image.new("RGB" if rgb else "L", (28, 28), (num, num, num) if rgb else num)


def offset(split):
    return {"train": 0, "test": 200, "extra": 230}[split]


def make_pool_class(world, ctx, name):
    rgb = name not in ("MNIST", "FashionMNIST")

    class Pool(torch.utils.data.Dataset):
        def __init__(self, root=None, train=None, split=None, classes=None, transform=None, **kw):
            world.tick(ctx)
            if classes is not None:
                split = "train" if "train" in classes[0] else "test"
            if split is None and train is None:  # ImageFolder
                split = os.path.basename(os.path.normpath(str(root)))
            if split is None:
                split = "train" if train else "test"
            if name in UPSTREAM.values():
                split = {"valid": "val"}.get(split, split)
                self.ids = {"train": range(0, 40), "val": range(40, 60), "test": range(60, 90)}[split]
            elif split == "extra":
                self.ids = range(230, 250)
            else:
                n = world.plan["n"] if split == "train" else world.plan["nt"]
                self.ids = range(offset(split), offset(split) + n)
            self.split, self.transform = split, transform
            self.data = np.array(list(self.ids))
            self.targets = torch.tensor([i % 10 for i in self.ids])
            self.labels = self.targets
            self.length = len(self.ids)

        def __len__(self):
            return len(self.ids)

        def __getitem__(self, i):
            num = self.ids[int(i)]
            img = image(num, rgb)
            return (self.transform(img) if self.transform is not None else img), num % 10

    Pool.__name__ = name
    return Pool


def table(plan, n_features, n_classes=3, rows=None):
    """Column 0 numbers the rows; labels are a function of the number."""
    n = rows or max(120, plan["n"] * 2)
    g = np.random.RandomState(plan["pool"] % 2**32)
    X = g.randn(n, n_features)
    X[:, 0] = np.arange(n)
    for num in plan.get("other", []):  # rows that changed upstream
        X[num, 1:] = X[num, 1:] * 3 + 2
    y = np.array([(i * 7 + i // 3) % n_classes for i in range(n)])
    return X, y


class Bunch:
    def __init__(self, data, target):
        self.data, self.target = data, target


def install(plan, scratch, ctx):
    """Replace the pools; returns an undo list."""
    import imageio.v3 as imageio
    import scipy.sparse
    import sklearn.datasets as skd
    import torchvision.datasets as tvd

    from simple_einet import data as D

    world = World(plan, scratch)
    undo = []

    def patch(obj, name, value):
        if hasattr(obj, name):
            undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)

    for name in sorted(set(SINGLE.values()) | set(UPSTREAM.values())):
        c = make_pool_class(world, ctx, name)
        patch(D, name, c)
        patch(tvd, name, c)

    def tab(nf, nc):
        def load(*a, return_X_y=False, **kw):
            world.tick(ctx)
            X, y = table(plan, nf, nc)
            return (X, y) if return_X_y else Bunch(X, y)

        return load

    for name, nf, nc in (("fetch_covtype", 54, 7), ("load_wine", 13, 3), ("load_breast_cancer", 30, 2), ("load_digits", 64, 10)):
        patch(skd, name, tab(nf, nc))
        patch(D, name, tab(nf, nc))  # imported by name

    def kdd(*a, return_X_y=False, **kw):
        world.tick(ctx)
        X, y = table(plan, 41, 5, rows=330)
        X = X.astype(object)
        for col, card in ((1, 3), (2, 66), (3, 11)):
            X[:, col] = [b"v%03d" % (i % card) for i in range(len(X))]
        return X, np.array([b"c%d" % v for v in y], dtype=object)

    patch(skd, "fetch_kddcup99", kdd)
    patch(D, "fetch_kddcup99", kdd)

    def news(*a, return_X_y=False, subset="train", **kw):
        world.tick(ctx)
        n = 600 if subset == "train" else 60
        g = np.random.RandomState((plan["pool"] + (subset == "train")) % 2**32)
        y = np.array([i % 20 for i in range(n)])
        X = np.abs(g.randn(n, 520)) * 0.05
        for c in range(20):
            X[y == c, c * 20 : c * 20 + 20] += 1.0
        X[:, 519] = np.arange(n)  # by far the largest variance: the first component numbers the rows
        if subset == "train":
            for num in plan.get("other", []):
                X[num, :500] = X[num, :500] * 3 + 0.1 * (num % 7)
        elif plan.get("other"):
            X[:, :500] *= 2
        return scipy.sparse.csr_matrix(X), y

    patch(skd, "fetch_20newsgroups_vectorized", news)
    patch(D, "fetch_20newsgroups_vectorized", news)

    def imread(path, *a, **kw):
        world.tick(ctx)
        ids = np.arange(70000)
        bits = np.zeros((70000, 784), dtype=np.uint8)
        for b in range(17):
            bits[:, b] = (ids >> b) & 1
        flat = np.concatenate([np.packbits(bits).ravel(), (ids % 10).astype(np.uint8)])
        flat = np.concatenate([flat, np.zeros((-len(flat)) % 3, dtype=np.uint8)]) if len(flat) % 3 else flat
        assert len(flat) % 3 == 0
        return flat.reshape(1, -1, 3)

    patch(imageio, "imread", imread)

    def no_shell(cmd):
        ctx.log("shell", cmd)
        return 0

    patch(D.os, "system", no_shell)
    return undo


def debd_files(plan, scratch):
    """A finished download."""
    name = plan["ds"]
    f = DEBD[name]
    base = os.path.join(scratch, "debd", "datasets", name)
    os.makedirs(base)
    lo = 0
    for part, n in (("train", plan["n"]), ("valid", plan["nt"]), ("test", plan["nt"] + 1)):
        with open(os.path.join(base, f"{name}.{part}.data"), "w", newline="") as fh:
            w = csv.writer(fh)
            for num in range(lo, lo + n):
                w.writerow([(num >> b) & 1 if b < 14 else (num + b) % 2 for b in range(f)])
        lo += n
    return {"train": plan["n"], "val": plan["nt"], "test": plan["nt"] + 1}


# ---------------------------------------------------------------- oracles


def items(ds, limit=None):
    n = len(ds)
    idx = range(n) if limit is None or n <= limit else [int(v) for v in np.linspace(0, n - 1, limit)]
    return [ds[i] for i in idx]


def fingerprint(parts, limit):
    return [thash(*[torch.as_tensor(np.asarray(v)) if not isinstance(v, torch.Tensor) else v for it in items(p, limit) for v in (it if isinstance(it, (tuple, list)) else [it])])
            for p in parts]


def run(plan, ctx):
    env.import_root("exp_utils")
    from simple_einet import data as D

    scratch = tempfile.mkdtemp(prefix="sim-c14-")
    cwd = os.getcwd()
    undo = install(plan, scratch, ctx)
    try:
        os.chdir(scratch)
        sizes = debd_files(plan, scratch) if plan["ds"] in DEBD else None
        loads, prints = [], []
        for k in range(2):
            W.noise(plan["noise"][k])
            st = W.rng_state()
            for attempt in range(5):
                try:
                    parts = D.get_datasets(plan["ds"], scratch, normalize=plan["norm"])
                    break
                except OSError as e:
                    if "simulated" not in str(e):
                        raise Violation("unexpected-exception:OSError", str(e))
                except Exception as e:
                    raise Violation(f"unexpected-exception:{type(e).__name__}", f"loading {plan['ds']}: {e}")
            else:
                raise Violation("never-recovers", f"{plan['ds']}: loading keeps failing after the download works again")
            if W.rng_state() != st:
                raise Violation("loading-disturbs", f"loading {plan['ds']} changed an ambient random generator")
            if len(parts) != 3:
                raise Violation("wrong-result-type", f"{len(parts)} parts")
            loads.append(parts)
            prints.append(fingerprint(parts, 400))
            ctx.log(k, prints[-1], [len(p) for p in parts])
        for name, a, b, pa, pb in zip(("training", "validation", "test"), prints[0], prints[1], *loads):
            if len(pa) != len(pb) or a != b:
                raise Violation("split-not-repeatable", f"{plan['ds']}: the {name} part differs between two loads ({len(pa)} and {len(pb)} rows)")
        trace(plan, loads[0], ctx, sizes, D)
        leak(plan, loads[0], prints[0], scratch, ctx, D)
        ctx.nontrivial = True
        ctx.mark((plan["ds"], plan["n"], plan["norm"], plan["fail"]))
    finally:
        os.chdir(cwd)
        for obj, name, value in reversed(undo):
            setattr(obj, name, value)
        shutil.rmtree(scratch)


def leak(plan, parts, prints, scratch, ctx, D):
    """Other values in the validation and test rows leave the training part as it is."""
    ds = plan["ds"]
    if ds not in TABLES and ds != "20newsgroup":
        return
    n = 600 if ds == "20newsgroup" else len(table(plan, 2, rows=330 if ds == "kddcup99" else None)[0])
    use = parts[:2] if ds == "20newsgroup" else parts
    col = [torch.tensor([float(x.reshape(-1)[0]) for x, _ in items(p)], dtype=torch.float64) for p in use]
    every = torch.cat(col)
    lo, gap = float(every.min()), float(every.max() - every.min()) / (n - 1)
    nums = [[int(v) for v in ((c - lo) / gap).round()] for c in col]
    if ds == "20newsgroup":  # the sign of a component is arbitrary
        labels = [int(b) for p in use for _, b in items(p)]
        if [k % 20 for q in nums for k in q] != labels:
            nums = [[n - 1 - k for k in q] for q in nums]
        if [k % 20 for q in nums for k in q] != labels:
            return
    if sorted(k for q in nums for k in q) != list(range(n)):
        return
    changed = {**plan, "other": sorted(k for q in nums[1:] for k in q), "fail": None}
    undo = install(changed, scratch, ctx)
    try:
        again = D.get_datasets(ds, scratch, normalize=plan["norm"])
    except Exception as e:
        raise Violation(f"unexpected-exception:{type(e).__name__}", f"loading {ds}: {e}")
    finally:
        for obj, name, value in reversed(undo):
            setattr(obj, name, value)
    now = fingerprint(again, 400)
    if now[1] != prints[1] and now[2] != prints[2]:
        ctx.probe("held-out rows changed")
    if now[0] != prints[0]:
        raise Violation("training-part-sees-held-out-rows", f"{ds}: changing the validation and test rows changes the training rows")


def cover(nums, pool, what, name):
    """nums: {part: row numbers}; the listed parts must partition the pool."""
    flat = [v for p in nums.values() for v in p]
    if len(set(flat)) != len(flat):
        dup = sorted(v for v in set(flat) if flat.count(v) > 1)
        raise Violation("parts-overlap", f"{what}: rows {dup[:6]} appear twice ({ {k: len(v) for k, v in nums.items()} })")
    if set(flat) != set(pool):
        raise Violation("rows-lost", f"{what}: {len(set(pool) - set(flat))} rows of the pool are in no part, {len(set(flat) - set(pool))} come from elsewhere")


def trace(plan, parts, ctx, sizes, D):
    ds = plan["ds"]
    names = ("train", "val", "test")
    shape = tuple(D.get_data_shape(ds))
    ctx.sim_time += sum(len(p) for p in parts)
    if ds in SINGLE or ds in UPSTREAM:
        ctx.probe("image pool")
        if plan["norm"]:
            ctx.probe("normalised")
        nums = {}
        for name, p in zip(names, parts):
            got = []
            for x, y in items(p):
                if tuple(x.shape) != shape:
                    raise Violation("wrong-shape", f"{ds}: a row has shape {tuple(x.shape)}, the data set's is {shape}")
                v = float(x.double().mean())
                num = (v + 1) / 2 * 255 if plan["norm"] else v * 255
                if abs(num - round(num)) > 0.02 or not 0 <= round(num) <= 255:
                    raise Violation("values", f"{ds} (normalize={plan['norm']}): a pixel of value {v}")
                num = int(round(num))
                if int(y) != num % 10:
                    raise Violation("rows-and-labels-mixed", f"{ds}: row {num} carries label {int(y)}")
                got.append(num)
            nums[name] = got
        if ds in UPSTREAM:
            want = {"train": range(0, 40), "val": range(40, 60), "test": range(60, 90)}
            for k in names:
                if sorted(nums[k]) != list(want[k]):
                    raise Violation("wrong-part", f"{ds}: the {k} part holds rows {sorted(nums[k])[:4]}..{sorted(nums[k])[-1:]}")
            return
        n = plan["n"]
        extra = [v for v in nums["train"] if v >= 230]
        nums["train"] = [v for v in nums["train"] if v < 230]
        if sorted(extra) != (list(range(230, 250)) if ds == "svhn-extra" else []):
            raise Violation("wrong-part", f"{ds}: extra rows {sorted(extra)[:5]} in the training part")
        if sorted(nums["test"]) != list(range(200, 200 + plan["nt"])):
            raise Violation("wrong-part", f"{ds}: the test part is not the upstream test set")
        cover({k: nums[k] for k in ("train", "val")}, range(n), ds, names)
        if abs(len(nums["val"]) - n * 0.1) > 1:
            raise Violation("sizes", f"{ds}: {len(nums['train'])}/{len(nums['val'])} of {n}")
        if n >= 100 and nums["val"] == list(range(n - len(nums["val"]), n)):
            raise Violation("not-shuffled", f"{ds}: the validation part is the tail of the pool")
    elif ds in TABLES:
        ctx.probe("table")
        nf = shape[0] * shape[1] * shape[2]
        nc = {"covtype": 7, "wine": 3, "breast_cancer": 2, "digits": 10, "kddcup99": 5}[ds]
        X, y = table(plan, 41 if ds == "kddcup99" else nf, nc, rows=330 if ds == "kddcup99" else None)
        n = len(X)
        vals, labels, full = {}, {}, {}
        for name, p in zip(names, parts):
            its = items(p)
            for x, _ in its[:2]:
                if tuple(x.shape) != shape:
                    raise Violation("wrong-shape", f"{ds}: a row has shape {tuple(x.shape)}, the data set's is {shape}")
            full[name] = torch.stack([x.reshape(-1).double() for x, _ in its])
            vals[name] = full[name][:, 0]
            labels[name] = [int(v) for _, v in its]
            if min(labels[name]) < 0 or max(labels[name]) >= D.get_data_num_classes(ds):
                raise Violation("classes", f"{ds}: labels up to {max(labels[name])}, the data set is said to have {D.get_data_num_classes(ds)} classes")
        allv = torch.cat([vals[k] for k in names])
        if allv.numel() != n:
            raise Violation("rows-lost", f"{ds}: {allv.numel()} rows in the parts, {n} in the pool")
        lo, hi = float(allv.min()), float(allv.max())
        gap = (hi - lo) / (n - 1)
        nums = {}
        for k in names:
            f = (vals[k] - lo) / gap
            if ((f - f.round()).abs() > 0.1).any():
                raise Violation("parts-scaled-differently", f"{ds}: the {k} part is not on the scale of the others")
            nums[k] = [int(v) for v in f.round()]
            for num, lab in zip(nums[k], labels[k]):
                if lab != int(y[num]):
                    raise Violation("rows-and-labels-mixed", f"{ds}: row {num} carries label {lab}, not {int(y[num])}")
        cover(nums, range(n), ds, names)
        if abs(len(nums["test"]) - 0.1 * n) > 1.01 or abs(len(nums["val"]) - 0.09 * n) > 2.01:
            raise Violation("sizes", f"{ds}: { {k: len(v) for k, v in nums.items()} } of {n}")
        # labels are spread over the parts as in the pool
        for c in range(nc):
            share = float((y == c).mean())
            for k in names:
                m = len(labels[k])
                if abs(labels[k].count(c) - share * m) > 1.01 + 0.02 * m:
                    raise Violation("not-stratified", f"{ds}: {labels[k].count(c)} of {m} rows in the {k} part have label {c}, share in the pool {share:.3f}")
        if ds != "digits":
            mu, sd = full["train"].mean(dim=0), full["train"].std(dim=0, unbiased=False)
            if (mu.abs() > 1e-2).any() or ((sd - 1).abs() > 1e-2).any():
                raise Violation("scaled-with-other-rows", f"{ds}: the training part has means up to {float(mu.abs().max()):.4f} and deviations up to {float(sd.max()):.4f}: the scale does not come from the training rows alone")
    elif ds in DEBD:
        ctx.probe("files")
        lo = 0
        for name, p in zip(names, parts):
            if len(p) != sizes[name]:
                raise Violation("sizes", f"{ds}: {len(p)} rows in the {name} part, its file has {sizes[name]}")
            got = []
            for x, _ in items(p):
                if tuple(x.shape) != shape:
                    raise Violation("wrong-shape", f"{ds}: row shape {tuple(x.shape)}")
                v = [int(q) for q in x.reshape(-1)]
                num = sum(v[b] << b for b in range(14))
                if v != [(num >> b) & 1 if b < 14 else (num + b) % 2 for b in range(len(v))]:
                    raise Violation("row-altered", f"{ds}: row {num} of the file was altered")
                got.append(num)
            if got != list(range(lo, lo + sizes[name])):
                raise Violation("wrong-part", f"{ds}: the {name} part holds rows {got[:3]}.., its file rows {lo}..")
            lo += sizes[name]
    elif ds in SYNTH:
        ctx.probe("synthetic")
        for p, n in zip(parts, (3000, 1000, 1000)):
            x = torch.stack([a for a, _ in items(p)])
            if len(p) != n or x.shape[1:] != (2,) or not torch.isfinite(x).all():
                raise Violation("sizes", f"{ds}: part of shape {tuple(x.shape)}, expected {n} rows")
            if x.std() < 1e-3:
                raise Violation("values", f"{ds}: constant data")
            if math.prod(shape) != 2:
                raise Violation("wrong-shape", f"{ds}: shape {shape} for rows of two numbers")
            seen = {int(b) for _, b in items(p)}
            if seen != set(range(D.get_data_num_classes(ds))):
                raise Violation("classes", f"{ds}: labels {sorted(seen)}, the data set is said to have {D.get_data_num_classes(ds)} classes")
        for tag in (ds,):
            a, _ = D.generate_data(tag, n_samples=50)
            W.noise(plan["noise"][2])
            b, _ = D.generate_data(tag, n_samples=50)
            if a.shape != (50, 2) or not torch.equal(a, b):
                raise Violation("split-not-repeatable", f"{ds}: generating 50 rows twice gives different rows")
    elif ds == "20newsgroup":
        ctx.probe("text")
        x = {k: torch.stack([a.reshape(-1) for a, _ in items(p)]).double() for k, p in zip(names, parts)}
        y = {k: torch.tensor([int(b) for _, b in items(p)]) for k, p in zip(names, parts)}
        if [len(x[k]) for k in names] != [540, 60, 60] or x["train"].shape[1] != 50:
            raise Violation("sizes", f"{ds}: { {k: tuple(v.shape) for k, v in x.items()} }")
        cen = torch.stack([x["train"][y["train"] == c].mean(dim=0) for c in range(20)])
        for k in names:
            near = torch.cdist(x[k], cen).argmin(dim=1)
            if float((near == y[k]).double().mean()) < 0.95:
                raise Violation("rows-and-labels-mixed", f"{ds}: only {float((near == y[k]).double().mean()):.2f} of the {k} rows lie with their class")
    elif ds == "mnist-bin":
        ctx.probe("binary image")
        nums = {}
        for name, p in zip(names, parts):
            step = max(1, len(p) // 300)
            got = []
            for i in range(0, len(p), step):
                x, y = p[i]
                v = x.reshape(-1)[:17].long()
                num = int((v << torch.arange(17)).sum())
                if int(y) != num % 10:
                    raise Violation("rows-and-labels-mixed", f"{ds}: row {num} carries label {int(y)}")
                got.append(num)
            nums[name] = got
        if [len(p) for p in parts] != [45000, 5000, 10000]:
            raise Violation("sizes", f"{ds}: {[len(p) for p in parts]}")
        if any(v >= 50000 for v in nums["train"] + nums["val"]) or any(not 50000 <= v < 60000 for v in nums["test"]):
            raise Violation("wrong-part", ds)
        if set(nums["train"]) & set(nums["val"]):
            raise Violation("parts-overlap", ds)
    else:
        ctx.probe("fake")
        for p in parts:
            if len(p) != 3000:
                raise Violation("sizes", f"{ds}: {len(p)}")


def simplify(plan):
    if plan["n"] > 20:
        yield {**plan, "n": 20}
    if plan["fail"] is not None:
        yield {**plan, "fail": None}
