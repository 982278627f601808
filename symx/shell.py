"""Variables that the commands see, in both engines: names with `$` and `~` must be taken as they are."""
import contextlib
import os

VARIABLES = {"HOME": "home", "SAVE": "other"}


@contextlib.contextmanager
def variables():
    old = {k: os.environ.get(k) for k in VARIABLES}
    os.environ.update(VARIABLES)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                del os.environ[k]
            else:
                os.environ[k] = v
