"""Stand-in for pytorch_lightning: module base class and checkpoint loading only."""
import inspect
import json

from torch import nn

BUILD = None  # seam: makes the model a checkpoint of this class stands for
FIT = None  # seam: takes the place of training


class LightningModule(nn.Module):
    device = "cpu"

    def save_hyperparameters(self, *_args):
        frame = inspect.currentframe().f_back
        try:
            params = list(inspect.signature(type(self).__init__).parameters)[1:]
            self.hparams = {p: frame.f_locals[p] for p in params if p in frame.f_locals}
        finally:
            del frame

    def log(self, *_args, **_kwargs):
        return None

    def freeze(self):
        self.frozen = True

    @classmethod
    def load_from_checkpoint(cls, path, **_kwargs):
        """A simulated checkpoint is a json file: {"class": name, "tag": anything, "end": 1}."""
        with open(path, "r") as ckpt:
            data = json.load(ckpt)
        if data["class"] != cls.__name__:
            raise RuntimeError(f"Error(s) in loading state_dict for {cls.__name__}")
        model = BUILD(cls) if BUILD else object.__new__(cls)
        model.checkpoint_tag = data["tag"]
        model.checkpoint_path = str(path)
        return model


class Trainer:
    def __init__(self, *_args, **kwargs):
        self.settings = kwargs

    def fit(self, model, train_loader, valid_loader):
        if FIT:
            return FIT(self, model, train_loader, valid_loader)
        raise NotImplementedError("training is not simulated")
