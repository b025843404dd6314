from . import env  # noqa
