"""Which scenario decides which property."""
import importlib

MODULES = (
    "s_life",
    "s_match",
    "s_filter",
    "s_identity",
    "s_threads",
    "s_video",
    "s_metrics",
    "s_camera",
    "s_draw",
    "s_loop",
    "s_equiv",
    "s_state",
    "s_checkpoint",
    "s_eval",
    "s_total",
    "s_grid",
)
_SCENARIOS = {}


def load():
    if not _SCENARIOS:
        from . import seams  # pylint: disable=import-outside-toplevel

        seams.install()
        for name in MODULES:
            module = importlib.import_module(f"dst.{name}")
            for prop, cls in module.SCENARIOS.items():
                _SCENARIOS[prop] = cls()
    return _SCENARIOS


def all_ids():
    return sorted(load())


def scenario_for(prop):
    return load()[prop]
