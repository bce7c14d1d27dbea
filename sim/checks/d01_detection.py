"""D01: detection finds every separate bright spot, whole and once."""

import os

import numpy as np

from .. import api, images
from ..core import Check, expect

FAULTS = ["hot pixel", "dead pixel", "dead row", "dead column", "hot row"]


def shape(rng):
    size = rng.choice([0.6, 0.9, 1.3, 1.3, 2.0, 3.0, 6.0, 6.0, 11.0])
    return [size, rng.choice([40, 90, 160, 240, 420] + [2000] * (size > 3))]


class Reference:
    """What must be found in an image: the spots no other one, and no edge of the
    region, comes near to and that fall off no more steeply than allowed."""

    def __init__(self, img, thres, disco, region):
        x0, x1, y0, y1 = region
        self.img = img = img.astype(int)
        self.thres = thres
        h, w = img.shape
        on = img > thres
        inside = np.zeros_like(on)
        inside[y0:y1, x0:x1] = True
        label = np.zeros(img.shape, dtype=int)
        self.sure, self.rest = [], []
        n = 0
        for y, x in np.argwhere(on & inside):
            if label[y, x]:
                continue
            n += 1
            label[y, x] = n
            todo, comp = [(y, x)], []
            while todo:
                p = todo.pop()
                comp.append(p)
                for q in self.near4(p):
                    if y0 <= q[0] < y1 and x0 <= q[1] < x1 and on[q] and not label[q]:
                        label[q] = n
                        todo.append(q)
            self.sure.append(comp)
        # spots that touch others or the edge, or are too steep
        sure = []
        for k, comp in enumerate(self.sure):
            good = True
            for p in comp:
                for q in self.near8(p):
                    if on[q] and label[q] != k + 1:
                        good = False
                for q in self.near4(p):
                    if label[q] == k + 1 and any(
                        img[r] > img[p] + disco for r in self.near4(q) + [q]
                    ):
                        good = False
                if not good:
                    break
            (sure if good else self.rest).append(comp)
        self.sure = sure

    def near4(self, p):
        y, x = p
        return [(y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)]

    def near8(self, p):
        y, x = p
        return [(y + a, x + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]

    def target(self, comp):
        """[x, y, n, nx, ny, sum above the threshold, sum]."""
        g = np.array([self.img[p] for p in comp])
        ys, xs = np.array(comp).T
        w = g - self.thres
        s = int(w.sum())
        return [
            float((xs * w).sum() / s + 0.5),
            float((ys * w).sum() / s + 0.5),
            len(comp),
            int(xs.max() - xs.min() + 1),
            int(ys.max() - ys.min() + 1),
            s,
            int(g.sum()),
        ]


class D01(Check):
    pid = "D01"
    quick_runs = 1800
    thorough_runs = 150000
    jit_share = 25
    rule = (
        "sequences of small simulated images of several cameras, with blobs of many sizes, "
        "saturation, noise, hot and dead pixels, rows and columns, dark and bright frames, are "
        "searched for targets over seeded regions and with seeded limits; non-trivial when a "
        "sensor fault struck and a spot had to be found"
    )
    real = ["target_recognition", "targ_rec", "fast_targ_rec"]
    stub = ["cameras: rendered images with seeded sensor faults"]
    time_unit = "images"

    def gen(self, rng, index):
        w, h = rng.choice([16, 30, 50, 80]), rng.choice([16, 30, 50, 80])
        frames = []
        for _ in range(rng.choice([2, 3, 5, 8])):
            blobs = [
                [round(rng.uniform(-2, w + 2), 3), round(rng.uniform(-2, h + 2), 3)] + shape(rng)
                for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))
            ]
            faults = [
                [rng.choice(FAULTS), rng.randrange(w), rng.randrange(h)]
                for _ in range(rng.choice([0, 1, 1, 2, 5]))
            ]
            sub = None
            if rng.random() < 0.3:
                a, b = sorted(rng.randrange(w + 1) for _ in range(2))
                c, d = sorted(rng.randrange(h + 1) for _ in range(2))
                sub = [a, b, c, d]
            frames.append(
                {
                    "cam": rng.randrange(4),
                    "blobs": blobs,
                    "faults": faults,
                    "noise": rng.choice([0, 0, 8, 20]),
                    "whole": rng.choice([None, None, None, None, None, None, 0, 255]),
                    "nseed": rng.randrange(1 << 30),
                    "sub": sub,
                }
            )
        lo = rng.choice([1, 1, 1, 2, 4, 9])
        side = rng.choice([1, 1, 2, 3])
        wide = rng.choice([3, 5, 200, 200, 200])  # whether only small spots are targets
        return {
            "w": w,
            "h": h,
            "thres": [rng.choice([5, 24, 30, 30, 60, 120]) for _ in range(4)],
            "disco": rng.choice([5, 20, 60, 120, 120, 255, 255, 400]),
            "n": [lo, rng.choice([lo, 30, 200, 200, 10000, 10000])],
            "nx": [side, wide if wide < 6 else rng.choice([side, 8, 20, 200, 200])],
            "ny": [side, wide if wide < 6 else rng.choice([side, 8, 20, 200, 200])],
            "sumg": rng.choice([0, 0, 50, 800]),
            "frames": frames,
        }

    def valid(self, case):
        return (
            8 <= case["w"] <= 100
            and 8 <= case["h"] <= 100
            and len(case["thres"]) == 4
            and min(case["thres"]) >= 1
            and max(case["thres"]) < 255
            and case["disco"] >= 0
            and case["sumg"] >= 0
            and all(len(case[k]) == 2 and case[k][0] >= 1 for k in ("n", "nx", "ny"))
            and case["frames"]
            and all(
                0 <= f["cam"] < 4
                and 0 <= f["noise"] <= 20
                and all(len(b) == 4 and 0.3 < b[2] < 20 and b[3] >= 0 for b in f["blobs"])
                and all(len(x) == 3 for x in f["faults"])
                and (
                    f["sub"] is None
                    or len(f["sub"]) == 4
                    and 0 <= f["sub"][0] <= f["sub"][1] <= case["w"]
                    and 0 <= f["sub"][2] <= f["sub"][3] <= case["h"]
                )
                for f in case["frames"]
            )
        )

    def run(self, case, ctx):
        jit = os.environ.get("NUMBA_DISABLE_JIT") != "1"
        w, h = case["w"], case["h"]
        cpar = api.ControlPar(num_cams=4, imx=w, imy=h, pix_x=0.01, pix_y=0.01)
        par = api.TargetPar(
            gvthresh=list(case["thres"]), discont=case["disco"], nnmin=case["n"][0], nnmax=case["n"][1],
            nxmin=case["nx"][0], nxmax=case["nx"][1], nymin=case["ny"][0], nymax=case["ny"][1],
            sumg_min=case["sumg"], cr_sz=2,
        )  # fmt: skip
        kept = repr(par)
        for k, f in enumerate(case["frames"]):
            if f["whole"] is not None:
                img = np.full((h, w), f["whole"], dtype=int)
                ctx.fault("dark frame" if f["whole"] == 0 else "bright frame")
            else:
                img = images.render(
                    f["blobs"], w, h, f["noise"], f["nseed"], int, f["faults"]
                )
                for x in f["faults"]:
                    ctx.fault(x[0])
                if f["noise"]:
                    ctx.fault("noise")
                if any(b[3] > 255 for b in f["blobs"]):
                    ctx.fault("saturation")
            given = img.astype(np.uint8) if jit and f["nseed"] % 3 else img.copy()
            before = given.copy()
            s = f["sub"]
            sub = {} if s is None else {"subrange_x": (s[0], s[1]), "subrange_y": (s[2], s[3])}
            got = api.target_recognition(given, par, f["cam"], cpar, **sub)
            ctx.sim_time += 1
            expect(np.array_equal(given, before), "the image changed", f"frame {k}")
            expect(repr(par) == kept, "the parameters changed", f"frame {k}: {par!r}")
            again = api.target_recognition(given, par, f["cam"], cpar, **sub)
            ts = lambda xs: [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in xs]
            expect(ts(got) == ts(again), "detection isn't repeatable", f"frame {k}")
            self.judge(case, f, k, img, got, ctx)

    def judge(self, case, f, k, img, got, ctx):
        w, h = case["w"], case["h"]
        s = f["sub"] or [0, w, 0, h]
        region = [max(1, s[0]), min(w - 1, s[1]), max(1, s[2]), min(h - 1, s[3])]
        thres = case["thres"][f["cam"]]
        ref = Reference(img, thres, case["disco"], region)
        for i, t in enumerate(got):
            expect(
                t.pnr == i and t.tnr == -1, "detection numbered wrongly", f"frame {k} target {i}: {t!r}"
            )
            for name in ("n", "nx", "ny"):
                lo, hi = case[name]
                v = getattr(t, name)
                expect(lo <= v <= hi, "detection outside the limits", f"frame {k} target {i}: {name} {v}")
            expect(
                region[0] + 0.5 - 1e-6 <= t.x <= region[1] - 0.5 + 1e-6
                and region[2] + 0.5 - 1e-6 <= t.y <= region[3] - 0.5 + 1e-6,
                "detection outside the region",
                lambda: f"frame {k} target {i}: {t.x}, {t.y}, region {region}",
            )
        left = [[t.x, t.y, t.n, t.nx, t.ny, t.sumg] for t in got]
        for comp in ref.sure:
            want = ref.target(comp)
            here = f"frame {k} camera {f['cam']} spot at {want[:2]} of {want[2]} pixels"
            ok = (
                all(case[x][0] <= v <= case[x][1] for x, v in zip(("n", "nx", "ny"), want[2:5]))
                and want[6] > case["sumg"]
            )
            mine = [t for t in left if abs(t[0] - want[0]) < 1e-6 and abs(t[1] - want[1]) < 1e-6 and t[2:] == want[2:6]]
            if ok:
                ctx.probe("spots that had to be found")
                expect(
                    len(mine) == 1,
                    "spot not found once and whole",
                    lambda: f"{here}: {want} in {[t for t in left if abs(t[0] - want[0]) < 3 and abs(t[1] - want[1]) < 3]}",
                )
                left.remove(mine[0])
            else:
                ctx.probe("spots to leave out")
                expect(not mine or ref.rest, "spot outside the limits found", here)
        # parts of spots that run into each other
        px = sum(len(c) for c in ref.rest)
        light = sum(int(img[p]) - thres for c in ref.rest for p in c)
        box = []
        for c in ref.rest:
            ys, xs = np.array(c).T
            box.append((xs.min(), xs.max() + 1, ys.min(), ys.max() + 1))
        for t in left:
            expect(
                any(a - 1e-6 <= t[0] <= b + 1e-6 and y <= t[1] + 1e-6 and t[1] <= z + 1e-6 for a, b, y, z in box),
                "detection of nothing or of a part",
                lambda: f"frame {k}: {t}",
            )
        expect(len(left) <= px and (px or not left), "detection of nothing", lambda: f"frame {k}: {left[:3]}")
        expect(
            sum(t[2] for t in left) <= px and sum(t[5] for t in left) <= light,
            "light counted twice",
            lambda: f"frame {k}: {left[:4]}, there are {px} pixels and {light}",
        )
        ctx.probe("other detections", len(left))
        ctx.event(k, len(got), len(ref.sure))

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) and bool(ctx.probes.get("spots that had to be found"))
