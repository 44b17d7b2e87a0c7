"""A small numpy-backed stand-in for the parts of torch that harmonic-inference uses.

It is not torch: there is no autograd and no GPU.  It exists so that the repository's own
model, dataset, decoder and script code can run inside the simulator (torch is not installed
in this sandbox).  Every numeric result is quantised after each layer so that the value
computed for one row never depends on which other rows share its batch.
"""
import numpy as np

from . import _core
from ._core import (  # noqa: F401
    Tensor,
    arange,
    as_tensor,
    cat,
    chunk,
    clamp,
    flatten,
    from_numpy,
    full,
    full_like,
    gather,
    is_tensor,
    log_softmax,
    manual_seed,
    nonzero,
    ones,
    ones_like,
    roll,
    sigmoid,
    softmax,
    sort,
    split,
    squeeze,
    stack,
    tensor,
    transpose,
    where,
    zeros,
    zeros_like,
)

for _name in (
    "abs add all any argmax argmin argsort cumsum div eq equal exp flip ge gt index_select isnan le log "
    "logical_and logical_not logical_or lt masked_select matmul max mean min mul narrow ne numel permute "
    "pow prod relu repeat reshape round select sqrt sub sum t tanh topk unbind unsqueeze"
).split():
    globals()[_name] = _core.method(_name)
concat = cat
LongTensor = IntTensor = FloatTensor = BoolTensor = tensor

float = np.float64  # noqa: A001  (attribute of the stub module only)
float32 = np.float32
float64 = np.float64
long = np.int64
int64 = np.int64
half = float16 = np.float16
double = np.float64
int = int32 = np.int32  # noqa: A001
int16 = np.int16
int8 = np.int8
uint8 = np.uint8
inf = np.inf
nan = np.nan
bool = np.bool_  # noqa: A001


def set_num_threads(_n):
    return None


def get_num_threads():
    return 1


class device:  # noqa: N801
    def __init__(self, name="cpu"):
        self.type = name


class no_grad:  # noqa: N801
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __call__(self, func):
        return func


inference_mode = no_grad


class cuda:  # noqa: N801
    @staticmethod
    def is_available():
        return False


from . import autograd, nn, optim, utils  # noqa: E402,F401
