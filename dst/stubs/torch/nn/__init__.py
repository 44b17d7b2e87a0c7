"""Layers of the torch stand-in: real arithmetic, seeded random weights, no training."""
import numpy as np

from .._core import WEIGHTS, Tensor, quant, raw


class Module:
    training = False

    def __init__(self):
        pass

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)

    def forward(self, *args, **kwargs):
        raise NotImplementedError()

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def parameters(self):
        return []

    def to(self, *_args, **_kwargs):
        return self


class ModuleList(list):
    pass


def _weights(*shape):
    # Multiples of 1/64, so that sums over one-hot inputs are exact
    return np.round(WEIGHTS.rng.normal(0.0, WEIGHTS.scale, size=shape) * 64) / 64


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = _weights(in_features, out_features) / max(1.0, np.sqrt(in_features) / 4)
        self.weight = np.round(self.weight * 256) / 256
        self.bias = _weights(out_features)

    def forward(self, inputs):
        data = raw(inputs)
        if data.shape[-1] != self.in_features:
            raise RuntimeError(
                f"mat1 and mat2 shapes cannot be multiplied ({data.shape} and "
                f"{self.weight.shape})"
            )
        return Tensor(quant(np.dot(data, self.weight) + self.bias))


class Dropout(Module):
    def __init__(self, p=0.0):
        super().__init__()

    def forward(self, inputs):
        return inputs


class Sequential(Module):
    def __init__(self, *layers):
        super().__init__()
        self.layers = layers

    def __iter__(self):
        return iter(self.layers)

    def __getitem__(self, i):
        return self.layers[i]

    def __len__(self):
        return len(self.layers)

    def forward(self, inputs):
        for layer in self.layers:
            inputs = layer(inputs)
        return inputs


def _function(name, **defaults):
    class Function(Module):
        def __init__(self, **kwargs):
            super().__init__()
            self.kwargs = {k: kwargs.get(k, v) for k, v in defaults.items()}

        def forward(self, *args):
            return getattr(functional, name)(*args, **self.kwargs)

    return Function


ReLU = _function("relu")
Sigmoid = _function("sigmoid")
Tanh = _function("tanh")
Softmax = _function("softmax", dim=-1)
LogSoftmax = _function("log_softmax", dim=-1)
CrossEntropyLoss = _function("cross_entropy", ignore_index=-100, reduction="mean")
NLLLoss = _function("nll_loss", ignore_index=-100, reduction="mean")
BCELoss = _function("binary_cross_entropy", reduction="mean")


class BatchNorm1d(Module):
    def __init__(self, *_args):
        super().__init__()


class Conv1d(Module):
    def __init__(self, *_args, **_kwargs):
        super().__init__()


class _Packed:
    def __init__(self, data, lengths):
        self.data = data
        self.lengths = lengths


def _sig(x):
    return quant(1.0 / (1.0 + np.exp(-np.clip(x, -700, 700))))


class LSTM(Module):
    def __init__(
        self, input_size, hidden_size, num_layers=1, bidirectional=False, batch_first=True
    ):
        super().__init__()
        assert batch_first
        self.hidden_size = hidden_size
        self.num_layers = num_layers
        self.dirs = 2 if bidirectional else 1
        self.input_size = input_size
        self.cells = []
        for layer in range(num_layers):
            size = input_size if layer == 0 else hidden_size * self.dirs
            for _ in range(self.dirs):
                self.cells.append(
                    (
                        np.round(_weights(size, 4 * hidden_size) * 32) / 64,
                        np.round(_weights(hidden_size, 4 * hidden_size) * 32) / 64,
                        _weights(4 * hidden_size),
                    )
                )

    def _step(self, cell, x, h, c):
        w_x, w_h, bias = cell
        gates = quant(np.dot(x, w_x) + np.dot(h, w_h) + bias)
        n = self.hidden_size
        i, f, g, o = gates[:n], gates[n : 2 * n], gates[2 * n : 3 * n], gates[3 * n :]
        c = quant(_sig(f) * c + _sig(i) * quant(np.tanh(g)))
        return quant(_sig(o) * quant(np.tanh(c))), c

    def forward(self, packed, hidden):
        data, lengths = packed.data, packed.lengths
        if data.shape[-1] != self.input_size:
            raise RuntimeError(
                f"input.size(-1) must be equal to input_size. Expected {self.input_size}, "
                f"got {data.shape[-1]}"
            )
        h_0, c_0 = raw(hidden[0]), raw(hidden[1])
        batch, max_len = data.shape[0], max(lengths)
        expected = (self.num_layers * self.dirs, batch, self.hidden_size)
        if h_0.shape != expected or c_0.shape != expected:
            raise RuntimeError(f"Expected hidden size {expected}, got {h_0.shape}, {c_0.shape}")
        h_n, c_n = np.zeros(expected), np.zeros(expected)
        out = np.zeros((batch, max_len, self.hidden_size * self.dirs))
        for row in range(batch):
            length = lengths[row]
            seq = data[row, :length]
            for layer in range(self.num_layers):
                new_seq = np.zeros((length, self.hidden_size * self.dirs))
                for direction in range(self.dirs):
                    idx = layer * self.dirs + direction
                    h, c = h_0[idx, row], c_0[idx, row]
                    steps = range(length) if direction == 0 else range(length - 1, -1, -1)
                    lo = direction * self.hidden_size
                    for t in steps:
                        h, c = self._step(self.cells[idx], seq[t], h, c)
                        new_seq[t, lo : lo + self.hidden_size] = h
                    h_n[idx, row], c_n[idx, row] = h, c
                seq = new_seq
            out[row, :length] = seq
        return _Packed(out, lengths), (Tensor(h_n), Tensor(c_n))


from . import functional, utils  # noqa: E402,F401
