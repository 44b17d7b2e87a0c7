"""Tensor type and functional operations of the torch stand-in."""
import builtins

import numpy as np

QUANTUM = 2.0 ** 20


def quant(array):
    """Round to a fixed grid, so that a row's value is independent of its batch mates."""
    return np.round(np.asarray(array, dtype=np.float64) * QUANTUM) / QUANTUM


def raw(value):
    if isinstance(value, Tensor):
        return value.data_
    return value


class Tensor:
    __slots__ = ("data_",)
    __array_priority__ = 1000

    def __init__(self, data):
        self.data_ = np.asarray(raw(data))

    # -- numpy interop ---------------------------------------------------------------
    def numpy(self):
        return self.data_

    def __array__(self, dtype=None):
        return self.data_ if dtype is None else self.data_.astype(dtype)

    def __deepcopy__(self, memo):
        return Tensor(self.data_.copy())

    def __reduce__(self):
        return (Tensor, (self.data_,))

    # -- shape -----------------------------------------------------------------------
    @property
    def shape(self):
        return self.data_.shape

    @property
    def dtype(self):
        return self.data_.dtype

    @property
    def ndim(self):
        return self.data_.ndim

    @property
    def device(self):
        return "cpu"

    def size(self, dim=None):
        return self.data_.shape if dim is None else self.data_.shape[dim]

    def dim(self):
        return self.data_.ndim

    def __len__(self):
        if self.data_.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self.data_)

    def __iter__(self):
        if self.data_.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        for i in range(len(self.data_)):
            yield Tensor(self.data_[i])

    def __getitem__(self, item):
        return Tensor(self.data_[_index(item)])

    def __setitem__(self, item, value):
        self.data_[_index(item)] = np.asarray(raw(value))

    def view(self, *shape):
        return self.reshape(*shape)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return Tensor(self.data_.reshape(shape))

    def permute(self, *dims):
        return Tensor(np.transpose(self.data_, dims))

    def transpose(self, dim0, dim1):
        return Tensor(np.swapaxes(self.data_, dim0, dim1))

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self.data_, dim))

    def squeeze(self, dim=None):
        return squeeze(self, dim)

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(
            self.data_.shape[i] if s == -1 else s for i, s in enumerate(shape)
        )
        return Tensor(np.broadcast_to(self.data_, shape))

    def contiguous(self):
        return self

    # -- casts -----------------------------------------------------------------------
    def float(self):
        return Tensor(self.data_.astype(np.float64))

    def double(self):
        return Tensor(self.data_.astype(np.float64))

    def long(self):
        return Tensor(self.data_.astype(np.int64))

    def int(self):
        return Tensor(self.data_.astype(np.int64))

    def bool(self):
        return Tensor(self.data_.astype(bool))

    def cpu(self):
        return self

    def to(self, *args, dtype=None, **_kwargs):
        for arg in args:
            if isinstance(arg, (type, np.dtype)):
                dtype = arg
        return self if dtype is None else Tensor(self.data_.astype(dtype))

    def detach(self):
        return self

    def clone(self):
        return Tensor(self.data_.copy())

    def item(self):
        return self.data_.item()

    def tolist(self):
        return self.data_.tolist()

    def __float__(self):
        return builtins.float(self.data_)

    def __int__(self):
        return builtins.int(self.data_)

    def __index__(self):
        return self.data_.__index__()

    def __bool__(self):
        return builtins.bool(self.data_)

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        return format(self.data_.item() if self.data_.ndim == 0 else self.data_, spec)

    # -- reductions ------------------------------------------------------------------
    def sum(self, dim=None, axis=None, keepdim=False):
        return Tensor(np.sum(self.data_, axis=_axes(dim, axis), keepdims=keepdim))

    def mean(self, dim=None, axis=None, keepdim=False):
        return Tensor(np.mean(self.data_, axis=_axes(dim, axis), keepdims=keepdim))

    def max(self, dim=None, keepdim=False):
        return _extreme(np.max, np.argmax, self.data_, dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return _extreme(np.min, np.argmin, self.data_, dim, keepdim)

    def argmax(self, dim=None):
        return Tensor(np.argmax(self.data_, axis=dim))

    def argmin(self, dim=None):
        return Tensor(np.argmin(self.data_, axis=dim))

    def round(self):
        return Tensor(np.round(self.data_))

    # -- the rest of the usual interface ----------------------------------------------
    @property
    def T(self):  # noqa: N802
        return Tensor(self.data_.T)

    @property
    def data(self):
        return self

    def t(self):
        return Tensor(self.data_.T)

    def numel(self):
        return builtins.int(self.data_.size)

    def nelement(self):
        return builtins.int(self.data_.size)

    def flatten(self, start_dim=0, end_dim=-1):
        return flatten(self, start_dim, end_dim)

    def half(self):
        return Tensor(self.data_.astype(np.float16))

    def type(self, dtype=None):
        return str(self.data_.dtype) if dtype is None else Tensor(self.data_.astype(dtype))

    def type_as(self, other):
        return Tensor(self.data_.astype(raw(other).dtype))

    def view_as(self, other):
        return Tensor(self.data_.reshape(raw(other).shape))

    def expand_as(self, other):
        return Tensor(np.broadcast_to(self.data_, raw(other).shape))

    def repeat(self, *times):
        return Tensor(np.tile(self.data_, times))

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    def masked_select(self, mask):
        return Tensor(self.data_[raw(mask).astype(bool)])

    def masked_fill(self, mask, value):
        return where(mask, value, self)

    def index_select(self, dim, index):
        return Tensor(np.take(self.data_, raw(index), axis=dim))

    def gather(self, dim, index):
        return gather(self, dim, index)

    def nonzero(self, as_tuple=False):
        return nonzero(self, as_tuple)

    def cumsum(self, dim):
        return Tensor(np.cumsum(self.data_, axis=dim))

    def prod(self, dim=None):
        return Tensor(np.prod(self.data_, axis=dim))

    def sqrt(self):
        return Tensor(np.sqrt(self.data_))

    def abs(self):
        return Tensor(np.abs(self.data_))

    def pow(self, exponent):
        return Tensor(self.data_ ** raw(exponent))

    def sigmoid(self):
        return sigmoid(self)

    def tanh(self):
        return Tensor(quant(np.tanh(self.data_)))

    def relu(self):
        return Tensor(np.maximum(self.data_, 0))

    def softmax(self, dim=-1):
        return softmax(self, dim)

    def log_softmax(self, dim=-1):
        return log_softmax(self, dim)

    def isnan(self):
        return Tensor(np.isnan(self.data_))

    def logical_not(self):
        return Tensor(np.logical_not(self.data_))

    def logical_and(self, other):
        return Tensor(np.logical_and(self.data_, raw(other)))

    def logical_or(self, other):
        return Tensor(np.logical_or(self.data_, raw(other)))

    def matmul(self, other):
        return Tensor(quant(np.matmul(self.data_, raw(other))))

    def __matmul__(self, other):
        return self.matmul(other)

    def split(self, size, dim=0):
        return split(self, size, dim)

    def chunk(self, chunks, dim=0):
        return chunk(self, chunks, dim)

    def roll(self, shifts, dims=None):
        return Tensor(np.roll(self.data_, shifts, axis=dims))

    def flip(self, *dims):
        return Tensor(np.flip(self.data_, dims))

    def sort(self, dim=-1, descending=False):
        return sort(self, dim, descending)

    def argsort(self, dim=-1, descending=False):
        return sort(self, dim, descending)[1]

    def topk(self, k, dim=-1, largest=True):
        values, indices = sort(self, dim, largest)
        return values.narrow(dim, 0, k), indices.narrow(dim, 0, k)

    def narrow(self, dim, start, length):
        return Tensor(np.take(self.data_, np.arange(start, start + length), axis=dim))

    def select(self, dim, index):
        return Tensor(np.take(self.data_, index, axis=dim))

    def unbind(self, dim=0):
        return tuple(Tensor(a) for a in np.moveaxis(self.data_, dim, 0))

    def new_zeros(self, *shape, **_kwargs):
        return zeros(*shape, dtype=self.data_.dtype)

    def new_ones(self, *shape, **_kwargs):
        return ones(*shape, dtype=self.data_.dtype)

    def requires_grad_(self, *_args):
        return self

    def backward(self):
        return None

    def cuda(self, *_args):
        return self

    def __contains__(self, value):
        return builtins.bool(np.any(self.data_ == raw(value)))

    def exp(self):
        return Tensor(quant(np.exp(self.data_)))

    def log(self):
        return Tensor(np.log(self.data_))

    def all(self, dim=None):
        return Tensor(np.all(self.data_, axis=dim))

    def any(self, dim=None):
        return Tensor(np.any(self.data_, axis=dim))

    def equal(self, other):
        other = raw(other)
        return self.data_.shape == other.shape and builtins.bool(np.all(self.data_ == other))

    def __repr__(self):
        return f"tensor({self.data_!r})"


class _Pair(tuple):
    values = property(lambda self: self[0])
    indices = property(lambda self: self[1])


def _axes(dim, axis):
    dim = dim if axis is None else axis
    return tuple(dim) if isinstance(dim, list) else dim


def _extreme(value, where_, data, dim, keepdim):
    if dim is None:
        return Tensor(value(data))
    if isinstance(dim, Tensor):
        return Tensor((np.maximum if value is np.max else np.minimum)(data, raw(dim)))
    at = np.expand_dims(where_(data, axis=dim), dim)
    best = np.take_along_axis(data, at, axis=dim)
    if not keepdim:
        best, at = np.squeeze(best, axis=dim), np.squeeze(at, axis=dim)
    return _Pair((Tensor(best), Tensor(at)))


def _index(item):
    if isinstance(item, tuple):
        return tuple(raw(i) for i in item)
    return raw(item)


def _install_operators():
    def binary(name):
        def operator(self, other):
            return Tensor(getattr(np.asarray(self.data_), name)(np.asarray(raw(other))))

        operator.__name__ = name
        return operator

    for name in (
        "add radd sub rsub mul rmul truediv rtruediv floordiv mod pow "
        "rfloordiv rmod rpow lt le gt ge eq ne and or xor rand ror"
    ).split():
        setattr(Tensor, f"__{name}__", binary(f"__{name}__"))

    for name in ("neg", "abs", "invert"):
        def unary(self, _name=f"__{name}__"):
            return Tensor(getattr(self.data_, _name)())

        setattr(Tensor, f"__{name}__", unary)


_install_operators()


def _install_comparisons():
    for name in "add sub mul eq ne lt le gt ge".split():
        setattr(Tensor, name, getattr(Tensor, f"__{name}__"))
    Tensor.div = Tensor.__truediv__


_install_comparisons()


def tensor(data, dtype=None, device=None):
    return Tensor(np.array(raw(data), dtype=dtype))


def from_numpy(array):
    if not isinstance(array, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(array).__name__})")
    return Tensor(array)


def zeros(*shape, device=None, dtype=np.float64):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return Tensor(np.zeros(shape, dtype=dtype))


def ones(*shape, device=None, dtype=np.float64):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return Tensor(np.ones(shape, dtype=dtype))


def transpose(tens, dim0, dim1):
    return Tensor(np.swapaxes(raw(tens), dim0, dim1))


def squeeze(tens, dim=None):
    data = raw(tens)
    if dim is None:
        return Tensor(np.squeeze(data))
    if data.shape[dim] != 1:
        return Tensor(data)
    return Tensor(np.squeeze(data, axis=dim))


def clamp(tens, min=None, max=None):
    return Tensor(np.clip(raw(tens), min, max))


def cat(tensors, dim=0):
    return Tensor(np.concatenate([raw(t) for t in tensors], axis=dim))


def stack(tensors, dim=0):
    return Tensor(np.stack([raw(t) for t in tensors], axis=dim))


def chunk(tens, chunks, dim=0):
    return tuple(Tensor(a) for a in np.array_split(raw(tens), chunks, axis=dim))


def gather(tens, dim, index):
    return Tensor(np.take_along_axis(raw(tens), raw(index).astype(np.int64), axis=dim))


def roll(tens, shifts, dims=None):
    return Tensor(np.roll(raw(tens), shifts, axis=dims))


def sigmoid(tens):
    data = np.clip(raw(tens), -700, 700)
    return Tensor(quant(1.0 / (1.0 + np.exp(-data))))


def softmax(tens, dim=-1):
    data = raw(tens)
    data = np.exp(data - np.max(data, axis=dim, keepdims=True))
    return Tensor(data / np.sum(data, axis=dim, keepdims=True))


def log_softmax(tens, dim=-1):
    data = raw(tens)
    data = data - np.max(data, axis=dim, keepdims=True)
    return Tensor(quant(data - np.log(np.sum(np.exp(data), axis=dim, keepdims=True))))


def where(condition, yes=None, no=None):
    if yes is None:
        return nonzero(condition, True)
    return Tensor(np.where(raw(condition), raw(yes), raw(no)))


def nonzero(tens, as_tuple=False):
    if as_tuple:
        return tuple(Tensor(a) for a in np.nonzero(raw(tens)))
    return Tensor(np.argwhere(raw(tens)))


def flatten(tens, start_dim=0, end_dim=-1):
    data = raw(tens)
    end = end_dim % builtins.max(data.ndim, 1)
    return Tensor(data.reshape(data.shape[:start_dim] + (-1,) + data.shape[end + 1:]))


def split(tens, size, dim=0):
    data = raw(tens)
    if isinstance(size, builtins.int):
        points = list(range(size, data.shape[dim], size))
    else:
        points = list(np.cumsum(size)[:-1])
    return tuple(Tensor(a) for a in np.split(data, points, axis=dim))


def sort(tens, dim=-1, descending=False):
    data = raw(tens)
    order = np.argsort(-data if descending else data, axis=dim, kind="stable")
    return _Pair((Tensor(np.take_along_axis(data, order, axis=dim)), Tensor(order)))


def arange(*args, device=None, dtype=None):
    return Tensor(np.arange(*[raw(a) for a in args], dtype=dtype))


def full(shape, value, device=None, dtype=None):
    return Tensor(np.full(shape, value, dtype=dtype))


def zeros_like(tens, **kwargs):
    return Tensor(np.zeros(raw(tens).shape, dtype=kwargs.get("dtype") or raw(tens).dtype))


def ones_like(tens, **kwargs):
    return Tensor(np.ones(raw(tens).shape, dtype=kwargs.get("dtype") or raw(tens).dtype))


def full_like(tens, value, **kwargs):
    return Tensor(np.full(raw(tens).shape, value, dtype=kwargs.get("dtype") or raw(tens).dtype))


def as_tensor(data, dtype=None, device=None):
    return tensor(data, dtype=dtype)


def is_tensor(value):
    return isinstance(value, Tensor)


def method(name):
    """torch.name(tensor, ...) as tensor.name(...)"""
    def function(tens, *args, **kwargs):
        return getattr(tens if isinstance(tens, Tensor) else Tensor(tens), name)(*args, **kwargs)

    function.__name__ = name
    return function


class _WeightRng:
    """Weights of every layer are drawn from this generator, seeded per run."""

    def __init__(self):
        self.rng = np.random.RandomState(0)
        self.scale = 1.0


WEIGHTS = _WeightRng()


def manual_seed(seed):
    WEIGHTS.rng = np.random.RandomState(seed % (2 ** 32))
