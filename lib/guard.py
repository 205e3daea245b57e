import os


def assert_repo():
    """The code that runs is the one of the working tree."""
    import earthkit.regrid

    top = os.path.realpath(os.environ["VERIF_REPO"])
    path = os.path.realpath(earthkit.regrid.__file__)
    if not path.startswith(top + os.sep):
        raise RuntimeError(f"earthkit.regrid is imported from {path}, not from {top}")
