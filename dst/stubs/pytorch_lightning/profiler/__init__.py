class AdvancedProfiler:
    def __init__(self, *_args, **_kwargs):
        pass
