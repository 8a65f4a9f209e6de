"""Harness declaration and loading."""
import importlib
import os
import sys
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List


@dataclass
class Harness:
    name: str
    fn: Callable
    bounds: str  # human statement of the bounds
    quick: Dict[str, Any] = field(default_factory=dict)
    thorough: Dict[str, Any] = field(default_factory=dict)  # overrides quick
    covers: List[str] = field(default_factory=list)  # reachability witnesses
    tiers: tuple = ("quick", "thorough")
    samples: int = 3  # validated paths per task
    weight: int = 1

    def params(self, tier):
        p = dict(self.quick)
        if tier == "thorough":
            p.update(self.thorough)
        return p


def load(prop):
    return importlib.import_module(f"vf.props.{prop.lower()}")


def setup_paths():
    for p in (os.environ.get("VF_SRC", "/repo/src"),):
        if p not in sys.path:
            sys.path.insert(0, p)
    import glob

    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        if p not in sys.path:
            sys.path.append(p)
