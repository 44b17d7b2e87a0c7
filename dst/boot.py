"""Process set-up shared by every entry point: stand-ins on the path, noise and clocks off."""
import functools
import logging
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True


def boot():
    for path in (REPO, os.path.join(HERE, "stubs"), VERIF):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)
    warnings.simplefilter("ignore")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

    # tqdm reads the real clock and starts a monitor thread: off.
    import tqdm
    import tqdm.std

    if not getattr(tqdm.std.tqdm, "_sim", False):
        init = tqdm.std.tqdm.__init__

        @functools.wraps(init)
        def quiet(self, *args, **kwargs):
            kwargs["disable"] = True
            init(self, *args, **kwargs)

        tqdm.std.tqdm.__init__ = quiet
        tqdm.std.tqdm._sim = True
        tqdm.std.tqdm.monitor_interval = 0

    logging.getLogger().handlers[:] = []
    logging.getLogger().addHandler(logging.NullHandler())


def preload():
    """Import the code under test once, so that simulated processes are cheap forks."""
    devnull = open(os.devnull, "w")
    old, sys.stderr = sys.stderr, devnull
    try:
        import h5py  # noqa: F401
        import music21  # noqa: F401
        import numpy  # noqa: F401
        import pandas  # noqa: F401
        import torch  # noqa: F401

        import harmonic_inference.data.corpus_reading  # noqa: F401
        import harmonic_inference.data.datasets  # noqa: F401
        import harmonic_inference.models.initial_chord_models  # noqa: F401
        import harmonic_inference.models.joint_model  # noqa: F401
        import harmonic_inference.utils.data_utils  # noqa: F401
        import harmonic_inference.utils.eval_utils  # noqa: F401
    finally:
        sys.stderr = old
