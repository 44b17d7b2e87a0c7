from . import DataLoader  # noqa: F401
