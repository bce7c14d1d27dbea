"""The public functions of the code under test, imported when first used.

Only documented functions and classes are used, looked up in the modules that
publish them.
"""

import importlib

_MODULES = [
    "constants",
    "calibration",
    "parameters",
    "tracking_frame_buf",
    "tracking_run",
    "track",
    "correspondences",
    "epi",
    "imgcoord",
    "multimed",
    "orientation",
    "sortgrid",
    "trafo",
    "find_candidate",
    "segmentation",
    "image_processing",
]


def module(name):
    return importlib.import_module("openptv_python." + name)


_WHERE = {
    "correspondences": "correspondences",
    "read_calblock": "orientation",
    "sortgrid": "sortgrid",
}


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in _WHERE:
        value = getattr(module(_WHERE[name]), name)
        globals()[name] = value
        return value
    for m in _MODULES:
        mod = module(m)
        if hasattr(mod, name):
            value = getattr(mod, name)
            globals()[name] = value
            return value
    raise AttributeError(f"openptv_python has no public name {name}")
