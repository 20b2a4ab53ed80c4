"""Imports of the real code (always from /repo's working tree) with logging stubbed."""
from . import common
common.install_goggles_stub()
import jax, jax.numpy as jnp, numpy as np  # noqa
import synthpix  # noqa
import synthpix.apply as apply
import synthpix.utils as utils
import synthpix.generate as generate
import synthpix.data_generate as data_generate
import synthpix.types as types
assert utils.__file__.startswith(common.REPO), utils.__file__


def patch_everywhere(obj, new):
    """Replace every module-global of synthpix that *is* `obj` (independent of how it was imported)."""
    undo = []
    for m in common.repo_modules():
        for k, v in list(vars(m).items()):
            if v is obj:
                undo.append((m, k, v))
                setattr(m, k, new)
    return undo


def restore(undo):
    for m, k, v in undo:
        setattr(m, k, v)
