"""Shared helpers for the harnesses (no access to private attributes of the code)."""

from __future__ import annotations

import warnings
from typing import Any

import upstage_des.api as UP
from upstage_des.type_help import TASK_GEN

warnings.simplefilter("ignore")


def J(name: str, fn: str, **params: Any) -> dict[str, Any]:
    return {"name": name, "fn": fn, "params": params}


def overlap(ctx: Any, t: Any, a: Any, b: Any) -> Any:
    """Length of [0, t] intersected with [a, b]."""
    return ctx.max(0, ctx.min(t, b) - a)
