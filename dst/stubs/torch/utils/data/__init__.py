"""Dataset / DataLoader of the torch stand-in.

The DataLoader simulates torch's worker processes: each worker owns a forked copy of the
dataset, and a chooser installed by the simulator decides which worker makes progress next.
Batches are delivered in sampler order, as torch guarantees.
"""
import copy

import numpy as np

from ..._core import Tensor

# Installed by the simulator; both have inert defaults.
CHOOSE = None  # callable(n) -> int : the scheduler's next decision
SHUFFLE = None  # callable(n) -> list : the sampler's permutation
ON_BATCH = None  # callable(dataset, indices) : probe


class Dataset:
    def __getitem__(self, index):
        raise NotImplementedError


class TensorDataset(Dataset):
    def __init__(self, *tensors):
        self.tensors = tensors

    def __getitem__(self, index):
        return tuple(t[index] for t in self.tensors)

    def __len__(self):
        return len(self.tensors[0])


class Subset(Dataset):
    def __init__(self, dataset, indices):
        self.dataset, self.indices = dataset, indices

    def __getitem__(self, index):
        return self.dataset[self.indices[index]]

    def __len__(self):
        return len(self.indices)


def default_collate(batch):
    elem = batch[0]
    if isinstance(elem, Tensor):
        return Tensor(np.stack([np.asarray(e) for e in batch]))
    if isinstance(elem, np.ndarray):
        if elem.dtype.kind in "OSU":
            raise TypeError(f"default_collate: unsupported dtype {elem.dtype}")
        return Tensor(np.stack(batch))
    if isinstance(elem, (bool, int, float, np.generic)):
        return Tensor(np.array(batch))
    if isinstance(elem, dict):
        return {key: default_collate([d[key] for d in batch]) for key in elem}
    if isinstance(elem, (tuple, list)):
        if any(len(e) != len(elem) for e in batch):
            raise RuntimeError("each element in list of batch should be of equal size")
        return [default_collate(list(samples)) for samples in zip(*batch)]
    if isinstance(elem, str):
        return list(batch)
    raise TypeError(f"default_collate: batch must contain tensors, arrays, numbers: {type(elem)}")


class DataLoader:
    def __init__(
        self,
        dataset,
        batch_size=1,
        shuffle=False,
        num_workers=0,
        collate_fn=None,
        drop_last=False,
        **_kwargs,
    ):
        self.dataset = dataset
        self.batch_size = batch_size
        self.shuffle = shuffle
        self.num_workers = num_workers or 0
        self.collate_fn = collate_fn or default_collate
        self.drop_last = drop_last

    def _batches(self):
        order = list(range(len(self.dataset)))
        if self.shuffle:
            order = list(SHUFFLE(len(order)) if SHUFFLE else order)
        batches = [
            order[i : i + self.batch_size] for i in range(0, len(order), self.batch_size)
        ]
        if self.drop_last and batches and len(batches[-1]) < self.batch_size:
            batches.pop()
        return batches

    def __len__(self):
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        batches = self._batches()
        if self.num_workers <= 0:
            for indices in batches:
                if ON_BATCH:
                    ON_BATCH(self.dataset, indices)
                yield self.collate_fn([self.dataset[i] for i in indices])
            return

        # Forked workers: batch b goes to worker b % num_workers, as torch does.
        workers = [copy.deepcopy(self.dataset) for _ in range(self.num_workers)]
        queues = [
            [(b, indices) for b, indices in enumerate(batches) if b % self.num_workers == w]
            for w in range(self.num_workers)
        ]
        partial = [[] for _ in workers]
        done = {}
        next_batch = 0
        while next_batch < len(batches):
            if next_batch in done:
                yield done.pop(next_batch)
                next_batch += 1
                continue
            runnable = [w for w in range(self.num_workers) if queues[w]]
            w = runnable[(CHOOSE(len(runnable)) if CHOOSE else 0) % len(runnable)]
            b, indices = queues[w][0]
            partial[w].append(workers[w][indices[len(partial[w])]])
            if len(partial[w]) == len(indices):
                done[b] = self.collate_fn(partial[w])
                partial[w] = []
                queues[w].pop(0)
