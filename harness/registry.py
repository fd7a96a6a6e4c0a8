"""Property id -> what decides it."""
import importlib

from . import repo  # noqa: F401

WHERE = {}
WHERE["C14"] = "combined"
WHERE["C15"] = WHERE["C16"] = WHERE["C17"] = "api"
WHERE["C20"] = "malformed"
WHERE["C25"] = "damage"
WHERE["C21"] = "threads"
WHERE["C13"] = "detect"
WHERE["C22"] = WHERE["C23"] = "footprint"
for _i in list(range(1, 13)) + [18, 19, 24]:
    WHERE["C%02d" % _i] = "plans"


def run(pid, ck):
    mod = importlib.import_module("." + WHERE[pid], __package__)
    getattr(mod, pid.lower())(ck)
