"""Replay a file written by a check:  python -m dst.replay FILE [-v]"""
from __future__ import annotations

import sys

from . import boot

if __name__ == "__main__":
    boot.ensure_env()
    from . import main

    sys.exit(main.replay(sys.argv[1:]))
