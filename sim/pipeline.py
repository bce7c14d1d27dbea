"""A whole evaluation as a user's batch script drives it: detection, matching,
positioning and tracking, with everything passed on through files, and nothing
but those files left after a crash.

The library does the work; the script only calls it, in any order that the data
allow, and repeats what failed.
"""

import os
import random

import numpy as np

from . import api, images, matching as mt, params, refparse, tracking as tk, values, world

SIGMA = 1.3
THRESHOLD = 30


def gen(rng, pictures=None):
    pictures = rng.random() < 0.3 if pictures is None else pictures
    s = tk.gen(
        rng,
        n_parts=rng.choice([1, 2, 3, 5, 8]),
        frames=4 if pictures else rng.choice([4, 4, 5, 6]),
        add=rng.choice([0, 0, 1]),
        cams=rng.choice([2, 3]) if pictures else None,
    )
    s["unmatched"] = []
    for c in s["world"]["cams"]:  # as it will be stored
        for k in ("cc", "xh", "yh"):
            c[k] = round(c[k], 4)
        c["added"] = [round(x, 8) for x in c["added"]]
    if pictures:
        s["world"].update(imx=512, imy=512, pix=0.025)
        s["ghosts"] = [g for g in s["ghosts"] if g[2] < 500 and g[3] < 500]
    return {
        "scene": s,
        "par": {
            "eps0": rng.choice([0.5, 1.0, 2.0, 4.0]) * s["world"]["pix"],
            "corrmin": rng.choice([0.0, 33.0]),
            "cn": 0.02,
            "all_cam": rng.choice([0, 0, 0, 1]),
            "zlim": rng.choice([15.0, 20.0, 30.0]),
        },
        "pictures": {
            "noise": rng.choice([0, 10, 20]),
            "hot": [
                [rng.randrange(s["n"]), rng.randrange(len(s["world"]["cams"])),
                 rng.randrange(2, 510), rng.randrange(2, 510)]
                for _ in range(rng.choice([0, 3, 12]))
            ],
        }
        if pictures
        else None,
        "text": rng.random() < 0.5,  # parameters in the old text files
    }


def valid(case):
    s = case["scene"]
    if not (tk.valid(s) and mt.valid_params(case["par"])):
        return False
    p = case["pictures"]
    if p is None:
        return True
    if not (s["world"]["imx"] == s["world"]["imy"] == 512 and 0 <= p["noise"] <= 20):
        return False
    nc = len(s["world"]["cams"])
    return all(len(h) == 4 and 0 <= h[1] < nc and h[2] > 0 and h[3] > 0 for h in p["hot"])


class Source:
    """What the cameras deliver, frame by frame."""

    def __init__(self, case, ctx=None):
        self.case = case
        self.s = case["scene"]
        self.sc = tk.Scene(self.s, ctx)
        self.w = self.sc.w
        self.nc = self.w.num_cams
        self.first, self.n = self.s["first"], self.s["n"]
        self._img = {}
        if ctx and case["pictures"]:
            for h in case["pictures"]["hot"]:
                ctx.fault("hot pixel")

    def blobs(self, k, c):
        """[x, y, body] of what camera c should show."""
        return [
            [r[1], r[2], self.body(k, c, r)] for r in self.sc.frames[k]["targets"][c]
        ]

    def body(self, k, c, r):
        return self.sc.frames[k]["ids"][r[7]] if r[7] >= 0 else None

    def image(self, k, c):
        if (k, c) not in self._img:
            p = self.case["pictures"]
            jit = os.environ.get("NUMBA_DISABLE_JIT") != "1"
            amp = lambda b: 150 + 12 * ((b or 0) % 7)
            self._img[k, c] = images.render(
                [[x, y, SIGMA, amp(b)] for x, y, b in self.blobs(k, c)],
                self.w.imx,
                self.w.imy,
                noise=p["noise"],
                nseed=self.s["nseed"] + 64 * k + c,
                dtype=np.uint8 if jit else int,
                faults=[["hot pixel"] + h[2:] for h in p["hot"] if h[:2] == [k, c]],
            )
        return self._img[k, c]

    def targets(self, k, c):
        """Detections without a detector."""
        return [
            api.Target(pnr=i, x=r[1], y=r[2], n=r[3], nx=r[4], ny=r[5], sumg=r[6], tnr=-1)
            for i, r in enumerate(self.sc.frames[k]["targets"][c])
        ]


class Kit:
    """Calibrations and parameters, as loaded from files."""

    def __init__(self, source, root):
        case, w = source.case, source.w
        self.cals = [
            api.read_calibration(*cal_names(root, c, True)) for c in range(w.num_cams)
        ]
        load = lambda cls: read_par(case, root, cls, w.num_cams)
        self.cpar = load("ControlPar")
        self.vpar = load("VolumePar")
        self.tpar = load("TrackPar")
        self.targ = load("TargetPar")
        self.seq = load("SequencePar")


def cal_names(root, c, path=False):
    from pathlib import Path

    out = [os.path.join(root, "cal", f"cam{c}.{e}") for e in ("ori", "addpar")]
    return [Path(x) for x in out] if path else out


def par_values(source, root):
    case, w = source.case, source.w
    s, p = case["scene"], case["par"]
    mm, t = w.spec["mm"], s["tpar"]
    names = source.sc.bases(root)
    return {
        "ControlPar": {
            "num_cams": w.num_cams, "img_base_name": names, "cal_img_base_name": names,
            "hp_flag": 1, "all_cam_flag": p["all_cam"], "tiff_flag": 1, "imx": w.imx,
            "imy": w.imy, "pix_x": w.pix, "pix_y": w.piy, "chfield": 0,
            "mm": {"nlay": 1, "n1": mm["n1"], "n2": [mm["n2"]], "d": [mm["d"]], "n3": mm["n3"]},
        },
        "VolumePar": {
            "x_lay": [-60.0, 60.0], "z_min_lay": [-p["zlim"]] * 2, "z_max_lay": [p["zlim"]] * 2,
            "cn": p["cn"], "cnx": p["cn"], "cny": p["cn"], "csumg": p["cn"], "eps0": p["eps0"],
            "corrmin": p["corrmin"],
        },
        "TrackPar": {
            **tk.track_par(t), "dsumg": 0.0, "dn": 0.0, "dnx": 0.0, "dny": 0.0,
        },
        "TargetPar": {
            "gvthresh": [THRESHOLD] * 4, "discont": 300, "nnmin": 4, "nnmax": 400, "nxmin": 2,
            "nxmax": 40, "nymin": 2, "nymax": 40, "sumg_min": 50, "cr_sz": 2,
        },
        "SequencePar": {
            "img_base_name": names, "first": source.first, "last": source.first + source.n - 1
        },
    }  # fmt: skip


def par_file(case, root, cls):
    return os.path.join(root, "par", cls + (".par" if case["text"] else ".yaml"))


def read_par(case, root, cls, nc):
    from pathlib import Path

    f = Path(par_file(case, root, cls))
    if not case["text"]:
        return getattr(api, cls).from_yaml(f)
    return params.read_legacy(cls, f, {"img_base_name": [0] * nc})


def prepare(source, root):
    """What the evaluation starts from: calibrations and parameters."""
    for d in ("cal", "par", "res", "img"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for c, cal in enumerate(source.w.cals()):
        api.write_calibration(cal, *cal_names(root, c))
    from pathlib import Path

    for cls, v in par_values(source, root).items():
        f = par_file(source.case, root, cls)
        if source.case["text"]:
            lines, _ = params.legacy(cls, v)
            tk._put(f, "".join(x + "\n" for x in lines))
        else:
            params.make(cls, v).to_yaml(Path(f))


class Script:
    """The stages.  Each returns whether it did its job; none keeps anything in
    memory for the next one but the kit."""

    def __init__(self, source, root):
        self.source, self.root, self.kit = source, root, None

    def load(self):
        self.kit = None
        self.kit = Kit(self.source, self.root)
        return True

    def detect(self, k, c):
        src = self.source
        if src.case["pictures"]:
            ts = api.target_recognition(src.image(k, c), self.kit.targ, c, self.kit.cpar)
            ts.sort(key=lambda t: (t.y, t.x))
            for i, t in enumerate(ts):
                t.pnr = i
        else:
            ts = src.targets(k, c)
        return api.write_targets(ts, len(ts), src.sc.bases(self.root)[c], src.first + k)

    def match(self, k):
        src, kit, nc = self.source, self.kit, self.source.nc
        bases = src.sc.bases(self.root)
        n = src.first + k
        T = [api.read_targets(b, n) for b in bases]
        cor = [api.match_coords(t, kit.cpar, cal) for t, cal in zip(T, kit.cals)]
        f = api.Frame(nc, max([4] + [len(t) for t in T]))
        for c, t in enumerate(T):
            f.targets[c] = t
            f.num_targets[c] = len(t)
        counts = [0] * 4
        con = api.correspondences(f, cor, kit.vpar, kit.cpar, kit.cals, counts)
        num = counts[3]
        pnr = np.full((nc, num), -999)
        for i in range(num):
            for c in range(nc):
                j = int(con[i].p[c])
                if j >= 0:
                    pnr[c, i] = cor[c][j].pnr
        if num:
            flat = np.array([api.get_by_pnrs(cor[c], pnr[c]) for c in range(nc)])
            pos, _ = api.point_positions(
                np.ascontiguousarray(flat.transpose(1, 0, 2)), kit.cpar.mm, kit.cals, kit.vpar
            )
        rows = [
            [float(x) for x in pos[i]]
            + [int(pnr[c, i]) if c < nc and pnr[c, i] >= 0 else -1 for c in range(4)]
            + [-1, -2, 4]
            for i in range(num)
        ]
        f.correspond, f.path_info = values.mk_path(rows)
        f.num_parts = num
        rt, links, _ = src.sc.names(self.root)
        return f.write(rt, links, "", bases, n)

    def track(self):
        src, kit = self.source, self.kit
        tr = api.TrackingRun(
            kit.seq, api.convert_track_par_to_tuple(kit.tpar), kit.vpar, kit.cpar, 4, 64,
            *src.sc.names(self.root), kit.cals, 1e-4,
        )
        # a run widens the volume, which is for tracking only
        self.kit = None
        api.track_forward_start(tr)
        for k in range(src.first, src.first + src.n - 1):
            api.trackcorr_c_loop(tr, k)
        api.trackcorr_c_finish(tr, src.first + src.n - 1)
        return True

    def do(self, job):
        if self.kit is None and job[0] != "load":
            self.load()
        return getattr(self, job[0])(*job[1:])

    def serial(self, track=True):
        for k in range(self.source.n):
            for c in range(self.source.nc):
                if not self.do(["detect", k, c]):
                    return ["detect", k, c]
            if not self.do(["match", k]):
                return ["match", k]
        if track and not self.do(["track"]):
            return ["track"]
        return None


class Stored(mt.Scene):
    """A frame as stored, for the reference matcher."""

    def __init__(self, source, root, k):
        self.s = source.s
        self.w = source.w
        self.nc = source.nc
        self.parsed = [
            refparse.targets(tk._get("%s_targets" % (b % (source.first + k))))
            for b in source.sc.bases(root)
        ]
        self.rows = []
        for c, ts in enumerate(self.parsed):
            blobs = source.blobs(k, c)
            rows = []
            for t in ts or []:
                near = [
                    (max(abs(b[0] - t[1]), abs(b[1] - t[2])), i) for i, b in enumerate(blobs)
                ]
                d, i = min(near) if near else (99, -1)
                body = blobs[i][2] if d < 0.5 else None
                rows.append(t[1:7] + [-1 if body is None else body])
            self.rows.append(rows)
