class Callback:
    def __init__(self, *_args, **_kwargs):
        pass


class EarlyStopping(Callback):
    pass


class LearningRateMonitor(Callback):
    pass


class ModelCheckpoint(Callback):
    pass
