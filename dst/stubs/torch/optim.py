class Adam:
    def __init__(self, *_args, **kwargs):
        self.settings = kwargs


class lr_scheduler:  # noqa: N801
    class ReduceLROnPlateau:
        def __init__(self, *_args, **_kwargs):
            pass
