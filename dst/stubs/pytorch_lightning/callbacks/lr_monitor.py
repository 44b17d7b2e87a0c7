from . import LearningRateMonitor  # noqa: F401
