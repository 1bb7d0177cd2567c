"""Layers with their dimensions; seeding is written down."""
from _opaque import LOG
from . import cuda, nn

float32 = "float32"


def manual_seed(seed):
    LOG.append(("torch.manual_seed", None, (seed,), {}))


def set_num_threads(n):
    pass


def use_deterministic_algorithms(mode, **kwargs):
    pass
