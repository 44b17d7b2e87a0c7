import numpy as np

from .._core import Tensor, log_softmax, method, raw, sigmoid, softmax  # noqa: F401

tanh = method("tanh")


def relu(tens):
    return Tensor(np.maximum(raw(tens), 0))


def _reduce(losses, reduction):
    if reduction == "none":
        return Tensor(losses)
    if reduction == "sum":
        return Tensor(np.sum(losses))
    return Tensor(np.mean(losses) if losses.size else np.nan)


def nll_loss(outputs, targets, ignore_index=-100, reduction="mean"):
    outputs, targets = raw(outputs), raw(targets).astype(np.int64)
    if outputs.ndim > 2:  # (batch, classes, ...) -> (-1, classes)
        outputs = np.moveaxis(outputs, 1, -1).reshape(-1, outputs.shape[1])
    targets = targets.reshape(-1)
    keep = targets != ignore_index
    outputs, targets = outputs[keep], targets[keep]
    if targets.size and (targets.min() < 0 or targets.max() >= outputs.shape[1]):
        raise IndexError("Target out of bounds")
    return _reduce(-outputs[np.arange(len(targets)), targets], reduction)


def cross_entropy(outputs, targets, ignore_index=-100, reduction="mean"):
    return nll_loss(log_softmax(outputs, dim=1), targets, ignore_index, reduction)


def binary_cross_entropy(outputs, targets, reduction="mean"):
    outputs, targets = raw(outputs), raw(targets)
    if outputs.shape != targets.shape:
        raise ValueError("input and target size mismatch")
    with np.errstate(divide="ignore"):
        pos = np.maximum(np.log(outputs), -100)
        neg = np.maximum(np.log(1 - outputs), -100)
    return _reduce(-(targets * pos + (1 - targets) * neg), reduction)


def binary_cross_entropy_with_logits(outputs, targets, reduction="mean"):
    return binary_cross_entropy(sigmoid(outputs), targets, reduction)


def one_hot(tens, num_classes=-1):
    data = raw(tens).astype(np.int64)
    count = num_classes if num_classes > 0 else int(data.max()) + 1
    return Tensor(np.eye(count, dtype=np.int64)[data])


def dropout(tens, p=0.5, training=True, inplace=False):
    return tens
