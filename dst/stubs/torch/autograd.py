def Variable(tensor, **_kwargs):  # noqa: N802
    return tensor
