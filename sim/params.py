"""Parameter objects as JSON: generation, construction, legacy files."""

from dataclasses import asdict

from . import api

NAMES = ["cam1", "img/cam1.%05d", "cal/cam 2.tif", "yes", "null", "007", "1.5", "Bärbel",
         "a: b", "- x", "#c", "~", "on", "'q'", '"', "cam\\1", "@", "%d", "{a}", "=", "0x1F", "1_000", "12:30:45", "2024-01-01", ".inf", "1e3", "!t x", "&a", "*a", "|",
         "a very long name with blanks " * 12 + "x", "q" * 300]  # fmt: skip


def _f(rng):
    return rng.choice(
        [0.0, 1.0, -1.0, rng.uniform(-100, 100), rng.uniform(-1, 1) * 1e-7, 1e10, 1.33]
    )


def _i(rng, lo=0, hi=5000):
    return rng.choice([lo, rng.randrange(lo, hi), hi])


def _name(rng):
    return rng.choice([rng.choice(NAMES), f"dir{rng.randrange(100)}/im.%04d"])


def _mm(rng):
    n = rng.choice([1, 1, 2, 3])
    return {
        "nlay": n,
        "n1": _f(rng),
        "n2": [_f(rng) for _ in range(n)],
        "d": [_f(rng) for _ in range(n)],
        "n3": _f(rng),
    }


def _control(rng):
    n = rng.choice([1, 2, 3, 4])
    return {
        "num_cams": n,
        "img_base_name": [_name(rng) for _ in range(n)],
        "cal_img_base_name": [_name(rng) for _ in range(n)],
        "hp_flag": _i(rng, 0, 1),
        "all_cam_flag": _i(rng, 0, 1),
        "tiff_flag": _i(rng, 0, 1),
        "imx": _i(rng),
        "imy": _i(rng),
        "pix_x": _f(rng),
        "pix_y": _f(rng),
        "chfield": _i(rng, 0, 2),
        "mm": _mm(rng),
    }


def _seq(rng):
    return {
        "img_base_name": [_name(rng) for _ in range(rng.choice([1, 2, 3, 4]))],
        "first": _i(rng, 0, 200000),
        "last": _i(rng, 0, 200000),
    }


def _track(rng):
    names = "dvxmin dvxmax dvymin dvymax dvzmin dvzmax dangle dacc".split()
    d = {k: _f(rng) for k in names}
    d["add"] = _i(rng, 0, 1)
    d.update({k: _f(rng) for k in ("dsumg", "dn", "dnx", "dny")})
    return d


def _volume(rng):
    d = {k: [_f(rng), _f(rng)] for k in ("x_lay", "z_min_lay", "z_max_lay")}
    d.update({k: _f(rng) for k in "cn cnx cny csumg eps0 corrmin".split()})
    return d


def _target(rng):
    d = {"gvthresh": [_i(rng, 0, rng.choice([255, 255, 4095, 65535])) for _ in range(4)]}
    names = "discont nnmin nnmax nxmin nxmax nymin nymax sumg_min cr_sz".split()
    d.update({k: _i(rng, 0, 100000) for k in names})
    return d


def _orient(rng):
    names = "useflag ccflag xhflag yhflag k1flag k2flag k3flag p1flag p2flag".split()
    names += "scxflag sheflag interfflag".split()
    return {k: _i(rng, 0, 3 if k == "useflag" else 1) for k in names}


def _cal(rng):
    n = rng.choice([1, 2, 4])
    return {
        "fixp_name": _name(rng),
        "img_name": [_name(rng) for _ in range(n)],
        "img_ori0": [_name(rng) for _ in range(n)],
        "tiff_flag": _i(rng, 0, 1),
        "pair_flag": _i(rng, 0, 1),
        "chfield": _i(rng, 0, 2),
    }


def _planes(rng):
    n = rng.choice([1, 2, 3, 5])
    return {"num_planes": n, "filename": [_name(rng) for _ in range(n)]}


def _examine(rng):
    return {"examine_flag": rng.random() < 0.5, "combine_flag": rng.random() < 0.5}


def _pft(rng):
    return {"existing_target_flag": rng.random() < 0.5}


GEN = {
    "MultimediaPar": _mm,
    "ControlPar": _control,
    "SequencePar": _seq,
    "TrackPar": _track,
    "VolumePar": _volume,
    "TargetPar": _target,
    "OrientPar": _orient,
    "CalibrationPar": _cal,
    "MultiPlanesPar": _planes,
    "ExaminePar": _examine,
    "PftVersionPar": _pft,
}


def make(cls, v):
    c = getattr(api, cls)
    if cls == "ControlPar":
        return c(**{**v, "mm": api.MultimediaPar(**v["mm"])})
    return c(**v)


def plain(obj):
    """The values an object holds; nested parameter objects must be objects."""
    d = asdict(obj)
    if isinstance(obj, api.ControlPar) and not isinstance(obj.mm, api.MultimediaPar):
        d["mm"] = f"not a MultimediaPar: {obj.mm!r}"
    return d


def differs(want, got):
    for k in want:
        if k not in got:
            return f"{k} is missing"
        w, g = want[k], got[k]
        if isinstance(w, dict) and isinstance(g, dict):
            d = differs(w, g)
            if d:
                return f"{k}.{d}"
        elif type(w) is bool or type(g) is bool:
            if bool(w) != bool(g) or isinstance(g, str):
                return f"{k} {w!r} written, {g!r} read"
        elif w != g or isinstance(w, str) != isinstance(g, str):
            return f"{k} {w!r} written, {g!r} read"
    if set(got) - set(want):
        return f"extra values {sorted(set(got) - set(want))}"
    return None


# -- legacy text files, one value per line ------------------------------------


def _s(x):
    return repr(x) if isinstance(x, float) else str(int(x) if isinstance(x, bool) else x)


def legacy(cls, v):
    """Lines of the legacy file that holds v, and the values a reader gets."""
    v = {k: (dict(x) if isinstance(x, dict) else x) for k, x in v.items()}
    if cls == "ControlPar":
        v["mm"].update(nlay=1, n2=v["mm"]["n2"][:1], d=v["mm"]["d"][:1])
        out = [v["num_cams"]]
        for a, b in zip(v["img_base_name"], v["cal_img_base_name"]):
            out += [a, b]
        out += [v[k] for k in "hp_flag all_cam_flag tiff_flag imx imy".split()]
        out += [v["pix_x"], v["pix_y"], v["chfield"]]
        m = v["mm"]
        out += [m["n1"], m["n2"][0], m["n3"], m["d"][0]]
    elif cls == "SequencePar":
        out = v["img_base_name"] + [v["first"], v["last"]]
    elif cls == "TrackPar":
        for k in ("dsumg", "dn", "dnx", "dny"):
            v[k] = 0.0
        names = "dvxmin dvxmax dvymin dvymax dvzmin dvzmax dangle dacc add".split()
        out = [v[k] for k in names]
    elif cls == "VolumePar":
        out = []
        for i in (0, 1):
            out += [v["x_lay"][i], v["z_min_lay"][i], v["z_max_lay"][i]]
        out += [v[k] for k in "cnx cny cn csumg corrmin eps0".split()]
    elif cls == "TargetPar":
        out = v["gvthresh"] + [v[k] for k in list(v) if k != "gvthresh"]
    elif cls == "OrientPar":
        out = list(v.values())
    elif cls == "CalibrationPar":
        out = [v["fixp_name"]]
        for a, b in zip(v["img_name"], v["img_ori0"]):
            out += [a, b]
        out += [v["tiff_flag"], v["pair_flag"], v["chfield"]]
    elif cls == "MultiPlanesPar":
        out = [v["num_planes"]] + v["filename"]
    elif cls == "ExaminePar":
        out = [v["examine_flag"], v["combine_flag"]]
    elif cls == "PftVersionPar":
        out = [v["existing_target_flag"]]
    else:
        return None, None
    return [_s(x) for x in out], v


LEGACY = [c for c in GEN if c != "MultimediaPar"]

# alternative public readers
READERS = {
    "ControlPar": "read_control_par",
    "SequencePar": "read_sequence_par",
    "TrackPar": "read_track_par",
    "VolumePar": "read_volume_par",
    "TargetPar": "read_target_par",
    "CalibrationPar": "read_cal_ori_parameters",
    "ExaminePar": "read_examine_par",
}


def read_legacy(cls, path, v, alt=False):
    args = [path]
    if cls == "SequencePar":
        args.append(len(v["img_base_name"]))
    if cls == "CalibrationPar":
        args.append(len(v["img_name"]))
    if alt and cls in READERS:
        return getattr(api, READERS[cls])(*args)
    return getattr(api, cls).from_file(*args)
