"""O01: cameras and parameters in memory hold what was last set, each its own."""

import os
from pathlib import Path

import numpy as np

from .. import api, params, values
from ..core import Check, expect
from ..disk import SimDisk, attempt, fault_spec

DEFAULT = {
    "pos": [0.0] * 3,
    "angles": [0.0] * 3,
    "int": [0.0] * 3,
    "glass": [0.0, 0.0, 1.0],
    "added": [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0],
}
# part: (setter, getter, where in the values, length)
PARTS = {
    "pos": ("set_pos", "get_pos", ("pos", 0, 3)),
    "angles": ("set_angles", "get_angles", ("angles", 0, 3)),
    "int": ("set_primary_point", "get_primary_point", ("int", 0, 3)),
    "glass": ("set_glass_vec", "get_glass_vec", ("glass", 0, 3)),
    "radial": ("set_radial_distortion", "get_radial_distortion", ("added", 0, 3)),
    "decentering": ("set_decentering", "get_decentering", ("added", 3, 5)),
    "affine": ("set_affine_distortion", "get_affine", ("added", 5, 7)),
    "dm": ("set_rotation_matrix", "get_rotation_matrix", None),
    "added": ("set_added_par", None, ("added", 0, 7)),
}
NAMED = {
    "x0": ("pos", 0), "y0": ("pos", 1), "z0": ("pos", 2),
    "omega": ("angles", 0), "phi": ("angles", 1), "kappa": ("angles", 2),
    "xh": ("int", 0), "yh": ("int", 1), "cc": ("int", 2),
}  # fmt: skip
# what setters and getters of parameters there are: field(s), argument as a tuple
SETTERS = {
    "MultimediaPar": {"set_n1": "n1", "set_n3": "n3", "set_layers": ("n2", "d")},
    "SequencePar": {"set_img_base_name": "img_base_name", "set_first": "first", "set_last": "last"},
    "TrackPar": {"set_dsumg": "dsumg", "set_dn": "dn", "set_dnx": "dnx", "set_dny": "dny"},
    "VolumePar": {
        "set_z_min_lay": "z_min_lay", "set_z_max_lay": "z_max_lay", "set_cn": "cn",
        "set_cnx": "cnx", "set_csumg": "csumg", "set_eps0": "eps0", "set_corrmin": "corrmin",
    },
    "ControlPar": {
        "set_image_size": ("imx", "imy"), "set_pixel_size": ("pix_x", "pix_y"),
        "set_chfield": "chfield", "set_hp_flag": "hp_flag",
    },
    "TargetPar": {},
}  # fmt: skip
GETTERS = {
    "MultimediaPar": {k: k[4:] for k in ("get_nlay", "get_n1", "get_n2", "get_n3", "get_d")},
    "SequencePar": {"get_first": "first", "get_last": "last"},
    "TrackPar": {
        **{f"get_{k}": k for k in "dvxmin dvxmax dvymin dvymax dangle dacc add dsumg dn dnx dny".split()},
        "get_dvz_min": "dvzmin", "get_dvz_max": "dvzmax",
    },
    "VolumePar": {},
    "ControlPar": {
        "get_image_size": ("imx", "imy"), "get_pixel_size": ("pix_x", "pix_y"),
        "get_chfield": "chfield", "get_num_cams": "num_cams", "get_hp_flag": "hp_flag",
        "get_allCam_flag": "all_cam_flag", "get_tiff_flag": "tiff_flag",
    },
    "TargetPar": {
        "get_grey_thresholds": "gvthresh", "get_pixel_count_bounds": ("nnmin", "nnmax"),
        "get_xsize_bounds": ("nxmin", "nxmax"), "get_ysize_bounds": ("nymin", "nymax"),
        "get_min_sum_grey": "sumg_min",
    },
}  # fmt: skip
COMPARE = {
    "SequencePar": "compare_sequence_par",
    "TrackPar": "compare_track_par",
    "VolumePar": "compare_volume_par",
    "ControlPar": "compare_control_par",
    "TargetPar": "compare_target_par",
    "MultimediaPar": "compare_mm_np",
}
CLASSES = sorted(SETTERS)


def number(rng):
    return rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-3, 3), 6), rng.uniform(-300, 300)])


class O01(Check):
    pid = "O01"
    quick_runs = 6000
    thorough_runs = 300000
    jit_share = 30
    rule = (
        "cameras and parameter objects are made by default, from values, from files on a "
        "failing disk and as copies, set part by part by every setter, changed in place, set "
        "to things of a wrong shape, and looked at after every step; non-trivial when an "
        "operation was refused or several objects of a class lived"
    )
    real = [
        "Calibration: constructor, setters, getters, copy, increment_attribute, file",
        "MultimediaPar, SequencePar, TrackPar, VolumePar, ControlPar, TargetPar: setters, getters, files",
        "compare_*",
    ]  # fmt: skip
    stub = ["disk: seeded faults at every raw operation"]
    time_unit = "operations"

    # -- workload ---------------------------------------------------------------

    def gen(self, rng, index):
        n = rng.choice([2, 3, 4])
        kind = [rng.choice(["Calibration", "Calibration", "Calibration"] + CLASSES) for _ in range(n)]
        if rng.random() < 0.6:  # several of a class
            kind = [rng.choice(kind)] * n
        ops = []
        for i in range(rng.choice([4, 8, 16])):
            s = rng.randrange(n)
            ops.append(self.gen_cal(rng, s, n, kind) if kind[s] == "Calibration" else self.gen_par(rng, s, n, kind))
        return {"kind": kind, "ops": ops, "buf": rng.choice([64, 8192])}

    def gen_cal(self, rng, s, n, kind):
        k = rng.choice(["set"] * 6 + ["bad", "bad", "inc", "inc", "turn", "new", "copy", "file", "file", "hold", "compare"])
        o = {"op": k, "s": s}
        if k in ("set", "bad"):
            o["part"] = rng.choice(sorted(PARTS))
            if o["part"] == "dm":
                o["v"] = [round(rng.uniform(-3, 3), 4) for _ in range(3)]
            else:
                _, a, b = PARTS[o["part"]][2]
                m = b - a
                if k == "bad":
                    if o["part"] == "added":
                        o["part"] = "radial"
                    m += rng.choice([-1, 1, 3])
                o["v"] = [number(rng) for _ in range(m)]
            o["alter"] = rng.random() < 0.5  # the array that was given, afterwards
        if k == "inc":
            o["name"] = rng.choice(sorted(NAMED))
            o["by"] = number(rng)
        if k == "new":
            o["v"] = rng.choice([None, None, values.calibration(rng)])
        if k in ("copy", "compare"):
            o["to"] = rng.choice([i for i in range(n) if kind[i] == "Calibration"])
        if k == "file":
            o["to"] = rng.choice([i for i in range(n) if kind[i] == "Calibration"])
            o["add"] = rng.random() < 0.7
            if rng.random() < 0.6:
                o["fault"] = fault_spec(rng, crash=0.0, harmless=0.1)
        return o

    def gen_par(self, rng, s, n, kind):
        cls = kind[s]
        k = rng.choice(["set"] * 4 + ["field", "field", "inplace", "inplace", "new", "new", "file", "file", "hold", "compare", "bad"])
        o = {"op": k, "s": s, "v": params.GEN[cls](rng)}
        if k == "set":
            o["name"] = rng.choice(sorted(SETTERS[cls]) or [""])
        if k == "field":
            o["name"] = rng.choice(sorted(o["v"]))
        if k == "inplace":
            o["k"] = rng.randrange(100)
        if k == "new":
            o["default"] = rng.random() < 0.5
        same = [i for i in range(n) if kind[i] == cls]
        o["to"] = rng.choice(same)
        if k == "file":
            o["via"] = rng.choice(["yaml", "yaml", "legacy", "dict"])
            if rng.random() < 0.4:
                o["fault"] = fault_spec(rng, crash=0.0, harmless=0.1)
        return o

    def valid(self, case):
        if not case["ops"] or not case["kind"]:
            return False
        for o in case["ops"]:
            if o["op"] in ("set", "bad") and case["kind"][o["s"]] == "Calibration":
                p = PARTS[o["part"]][2]
                m = 3 if p is None else p[2] - p[1]
                if (len(o["v"]) == m) != (o["op"] == "set" or o["part"] == "dm"):
                    return False
            for i in (o["s"], o.get("to", o["s"])):
                if not 0 <= i < len(case["kind"]):
                    return False
            if "to" in o and case["kind"][o["to"]] != case["kind"][o["s"]]:
                return False
            if "v" in o and case["kind"][o["s"]] != "Calibration":
                v = o["v"]
                m = v.get("mm", v)
                if "n2" in m and (len(m["n2"]) != len(m["d"]) or not m["n2"]):
                    return False
                if "gvthresh" in v and len(v["gvthresh"]) != 4:
                    return False
                if "x_lay" in v and not len(v["x_lay"]) == len(v["z_min_lay"]) == len(v["z_max_lay"]) == 2:
                    return False
                for names in ("img_base_name", "cal_img_base_name"):
                    if names in v and "num_cams" in v and len(v[names]) != v["num_cams"]:
                        return False
                params.make(case["kind"][o["s"]], v)
        return True

    # -- run ----------------------------------------------------------------------

    def run(self, case, ctx):
        self.ctx = ctx
        self.first = {}  # the defaults of a class
        kind = case["kind"]
        disk = SimDisk(ctx.scratch, ctx, case["buf"])
        os.makedirs(os.path.join(ctx.scratch, "f"), exist_ok=True)
        obj, want = [], []
        for k in kind:
            o, v = self.fresh(k)
            obj.append(o)
            want.append(v)
        held = []
        self.look(kind, obj, want, "at first")
        for n, o in enumerate(case["ops"]):
            ctx.sim_time += 1
            pre = "cal_" if kind[o["s"]] == "Calibration" else "par_"
            with disk:
                getattr(self, pre + o["op"])(n, o, kind, obj, want, held, disk)
            ctx.probe(pre + o["op"])
            self.look(kind, obj, want, f"after operation {n} {o['op']} of object {o['s']}")
            for what, got, was in held:
                expect(
                    self.same(got, was), "a value handed out changed later",
                    lambda: f"after operation {n}: {what} gave {was}, is {got}",
                )  # fmt: skip
            ctx.event(n, o["op"], repr(want[o["s"]]))
        if len(set(kind)) < len(kind):
            ctx.probe("several of a class")

    def same(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array_equal(np.asarray(a), np.asarray(b))
        return a == b

    def fresh(self, k, v=None):
        import copy

        if k != "Calibration":
            if v is not None:
                return params.make(k, copy.deepcopy(v)), copy.deepcopy(v)
            o = getattr(api, k)()
            return o, params.plain(o)
        if v is None:
            return api.Calibration(), {**copy.deepcopy(DEFAULT), "dm": np.eye(3)}
        c = values.mk_calibration(v)
        return c, {**copy.deepcopy(v), "dm": values.rotation(v["angles"])}

    def look(self, kind, obj, want, when):
        for i, (k, o, w) in enumerate(zip(kind, obj, want)):
            if k == "Calibration":
                got = values.un_calibration(o)
                for f in DEFAULT:
                    expect(
                        got[f] == [float(x) for x in w[f]], "an object doesn't hold what was set",
                        lambda: f"{when}: camera {i}: {f} is {got[f]}, was set to {w[f]}",
                    )  # fmt: skip
                expect(
                    np.max(np.abs(np.array(got["dm"]) - w["dm"])) < 1e-12,
                    "an object doesn't hold what was set",
                    lambda: f"{when}: camera {i}: rotation matrix {got['dm']}, should be {w['dm'].tolist()}",
                )
            else:
                d = params.differs(w, params.plain(o))
                expect(
                    d is None, "an object doesn't hold what was set",
                    lambda: f"{when}: object {i}, {k}: {d}",
                )  # fmt: skip

    # -- cameras --------------------------------------------------------------------

    def cal_set(self, n, o, kind, obj, want, held, disk):
        c, w = obj[o["s"]], want[o["s"]]
        v = values.rotation(o["v"]) if o["part"] == "dm" else np.array(o["v"], dtype=float)
        given = v.copy()
        getattr(c, PARTS[o["part"]][0])(given)
        expect(np.array_equal(given, v), "a setter changed what it was given", f"operation {n}")
        if o["part"] == "dm":
            w["dm"] = v
        else:
            f, a, b = PARTS[o["part"]][2]
            w[f][a:b] = [float(x) for x in v]
            if o["part"] == "angles":
                w["dm"] = values.rotation(o["v"])
        if o["alter"]:
            given += 1.0

    def cal_bad(self, n, o, kind, obj, want, held, disk):
        v = np.eye(4)[: 3 + len(o["v"]) % 2] if o["part"] == "dm" else np.array(o["v"], dtype=float)
        try:
            getattr(obj[o["s"]], PARTS[o["part"]][0])(v)
        except ValueError:
            self.ctx.fault("refused value")
            return
        expect(False, "a value of a wrong shape was accepted", f"operation {n}: {o['part']} {v.shape}")

    def cal_inc(self, n, o, kind, obj, want, held, disk):
        obj[o["s"]].increment_attribute(o["name"], o["by"])
        f, i = NAMED[o["name"]]
        want[o["s"]][f][i] = float(want[o["s"]][f][i] + o["by"])

    def cal_turn(self, n, o, kind, obj, want, held, disk):
        obj[o["s"]].update_rotation_matrix()
        want[o["s"]]["dm"] = values.rotation(want[o["s"]]["angles"])

    def cal_new(self, n, o, kind, obj, want, held, disk):
        obj[o["s"]], want[o["s"]] = self.fresh("Calibration", o["v"])

    def cal_copy(self, n, o, kind, obj, want, held, disk):
        import copy

        if o["s"] == o["to"]:
            return
        obj[o["s"]].copy(obj[o["to"]])
        want[o["to"]] = copy.deepcopy(want[o["s"]])

    def cal_hold(self, n, o, kind, obj, want, held, disk):
        for part, (_, get, where) in sorted(PARTS.items()):
            if get:
                v = getattr(obj[o["s"]], get)()
                held.append((f"operation {n}: {get}", v, np.array(v)))
                if where:
                    f, a, b = where
                    expect(
                        [float(x) for x in v] == [float(x) for x in want[o["s"]][f][a:b]],
                        "a getter gives something else", f"operation {n}: {get} {v}",
                    )  # fmt: skip

    def cal_compare(self, n, o, kind, obj, want, held, disk):
        a, b = want[o["s"]], want[o["to"]]
        far = np.max(np.abs(a["dm"] - b["dm"]))
        if 1e-7 < far < 1e-4:
            return
        x, y = obj[o["s"]], obj[o["to"]]
        ext = bool(all(a[f] == b[f] for f in ("pos", "angles")) and far < 1e-6)
        parts = [
            ("exterior", api.compare_exterior(x.ext_par, y.ext_par), ext),
            ("interior", api.compare_interior(x.int_par, y.int_par), a["int"] == b["int"]),
            ("glass", api.compare_glass(x.glass_par, y.glass_par), a["glass"] == b["glass"]),
            ("added", api.compare_addpar(x.added_par, y.added_par), a["added"] == b["added"]),
        ]
        parts.append(("all", api.compare_calibration(x, y), all(p[2] for p in parts)))
        for what, got, same in parts:
            expect(bool(got) == bool(same), "wrong comparison", f"operation {n}: {what} {got} for {a} and {b}")

    def cal_file(self, n, o, kind, obj, want, held, disk):
        """Written and read as another; what fails leaves everything as it was."""
        root = os.path.join(self.ctx.scratch, "f")
        ori, add = os.path.join(root, "a.ori"), os.path.join(root, "a.addpar")

        def work():
            api.write_calibration(obj[o["s"]], ori, add if o["add"] else None)
            return api.read_calibration(Path(ori), Path(add) if o["add"] else None)

        out = attempt(disk, work, [o.get("fault")])
        if out.how != "ok":
            expect(disk.harmful(), "healthy file failed", f"operation {n}: {out}")
            return
        v = {k: list(x) for k, x in want[o["s"]].items() if k != "dm"}
        d = values.calibration_differs(v, values.un_calibration(out.value), o["add"])
        if d and "rotation" in d:  # the matrix is that of the angles that were written
            d = None
        expect(d is None, "read something else", f"operation {n}: {d}")
        got = values.un_calibration(out.value)
        got["dm"] = np.array(got["dm"])
        obj[o["to"]], want[o["to"]] = out.value, got

    # -- parameters -------------------------------------------------------------------

    def par_set(self, n, o, kind, obj, want, held, disk):
        import copy

        cls = kind[o["s"]]
        f = SETTERS[cls].get(o["name"])
        if f is None:
            return
        v = copy.deepcopy(o["v"])
        set_ = getattr(obj[o["s"]], o["name"])
        if o["name"] == "set_layers":
            set_(v["n2"], v["d"])
        elif isinstance(f, tuple):
            set_(tuple(v[k] for k in f))
        else:
            set_(v[f])
        for k in f if isinstance(f, tuple) else [f]:
            want[o["s"]][k] = copy.deepcopy(o["v"][k])

    def par_bad(self, n, o, kind, obj, want, held, disk):
        if kind[o["s"]] != "MultimediaPar":
            return
        m = len(o["v"]["n2"])
        for f in (
            lambda: obj[o["s"]].set_layers([1.0] * m, [1.0] * (m + 1)),
            lambda: api.MultimediaPar(n2=[1.0] * m, d=[1.0] * (m + 1)),
        ):
            try:
                f()
            except ValueError:
                self.ctx.fault("refused value")
                continue
            expect(False, "a value of a wrong shape was accepted", f"operation {n}")

    def par_field(self, n, o, kind, obj, want, held, disk):
        import copy

        if o["name"] in ("n2", "d"):  # these belong together
            return
        v = copy.deepcopy(o["v"][o["name"]])
        want[o["s"]][o["name"]] = copy.deepcopy(v)
        setattr(obj[o["s"]], o["name"], api.MultimediaPar(**v) if o["name"] == "mm" else v)

    def par_inplace(self, n, o, kind, obj, want, held, disk):
        """A list of the object gets another element, or one more."""
        spots = []
        for o_, w_ in ((obj[o["s"]], want[o["s"]]), (getattr(obj[o["s"]], "mm", None), want[o["s"]].get("mm"))):
            if w_ is not None:
                spots += [(getattr(o_, k), w_[k]) for k in sorted(w_) if isinstance(w_[k], list)]
        if not spots:
            return
        a, b = spots[o["k"] % len(spots)]
        if b:
            x = b[0] + b[0] if isinstance(b[0], str) else b[0] + 1
            a[0] = b[0] = x
        else:
            a.append("x")
            b.append("x")

    def par_new(self, n, o, kind, obj, want, held, disk):
        v = None if o["default"] else o["v"]
        obj[o["s"]], want[o["s"]] = self.fresh(kind[o["s"]], v)
        if v is None:  # the defaults are those of the class, whatever was done to others
            base = getattr(api, kind[o["s"]])
            first = self.first.setdefault(base.__name__, repr(want[o["s"]]))
            expect(first == repr(want[o["s"]]), "defaults changed", f"operation {n}: {want[o['s']]}, were {first}")

    def par_hold(self, n, o, kind, obj, want, held, disk):
        w = want[o["s"]]
        for get, f in sorted(GETTERS[kind[o["s"]]].items()):
            got = getattr(obj[o["s"]], get)()
            v = tuple(w[k] for k in f) if isinstance(f, tuple) else w[f]
            expect(
                self.same(got, v) or list(got) == list(v), "a getter gives something else",
                lambda: f"operation {n}: {get} {got}, should be {v}",
            )  # fmt: skip
        if kind[o["s"]] == "SequencePar":
            for i, name in enumerate(w["img_base_name"]):
                expect(obj[o["s"]].get_img_base_name(i) == name, "a getter gives something else", f"operation {n}")

    def par_compare(self, n, o, kind, obj, want, held, disk):
        f = COMPARE.get(kind[o["s"]])
        if f:
            got = bool(getattr(api, f)(obj[o["s"]], obj[o["to"]]))
            same = want[o["s"]] == want[o["to"]]
            expect(got == same, "wrong comparison", lambda: f"operation {n}: {got} for {want[o['s']]} and {want[o['to']]}")

    def par_file(self, n, o, kind, obj, want, held, disk):
        import copy

        cls = kind[o["s"]]
        root = os.path.join(self.ctx.scratch, "f")
        c = getattr(api, cls)
        here = want[o["s"]]
        if o["via"] == "dict":
            given = c.to_dict(obj[o["s"]])
            kept = copy.deepcopy(given)
            new, v = c.from_dict(given), copy.deepcopy(here)
            expect(
                given == kept and all(type(given[k]) is type(x) for k, x in kept.items()),
                "argument changed",
                f"operation {n}: from_dict changed what it was given",
            )
        elif o["via"] == "yaml":
            p = Path(root) / "p.yaml"

            def work():
                obj[o["s"]].to_yaml(p)
                return c.from_yaml(p)

            out = attempt(disk, work, [o.get("fault")])
            if out.how != "ok":
                expect(disk.harmful(), "healthy file failed", f"operation {n}: {out}")
                return
            new, v = out.value, copy.deepcopy(here)
        else:
            lines, v = params.legacy(cls, o["v"])
            if lines is None:
                return
            p = Path(root) / "p.par"
            with open(p, "w", encoding="utf-8") as f:
                f.write("\n".join(lines) + "\n")
            out = attempt(disk, lambda: params.read_legacy(cls, p, v, alt=bool(n % 2)), [o.get("fault")])
            if out.how != "ok":
                expect(disk.harmful(), "healthy file failed", f"operation {n}: {out}")
                return
            new = out.value
        d = params.differs(v, params.plain(new))
        expect(d is None, "read something else", f"operation {n}: {d}")
        obj[o["to"]], want[o["to"]] = new, copy.deepcopy(v)

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) or ctx.probes.get("several of a class", 0) > 0
