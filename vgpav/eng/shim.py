"""Entry points used by val.py."""
from .seq import to_array          # noqa: F401
from .npshim import mask_positions  # noqa: F401
