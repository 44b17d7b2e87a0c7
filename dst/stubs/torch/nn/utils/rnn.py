import numpy as np

from .. import _Packed
from ..._core import Tensor, raw


def pack_padded_sequence(inputs, lengths, batch_first=False, enforce_sorted=True):
    data = raw(inputs)
    lengths = [int(length) for length in np.asarray(raw(lengths)).reshape(-1)]
    if not batch_first:
        raise NotImplementedError("stub supports batch_first only")
    if len(lengths) != data.shape[0]:
        raise RuntimeError("Expected `len(lengths)` to be equal to batch_size")
    if min(lengths) <= 0:
        raise RuntimeError("Length of all samples has to be greater than 0")
    if max(lengths) > data.shape[1]:
        raise RuntimeError("start + length exceeds dimension size")
    return _Packed(data, lengths)


def pad_packed_sequence(packed, batch_first=False):
    return Tensor(packed.data), Tensor(np.array(packed.lengths, dtype=np.int64))
