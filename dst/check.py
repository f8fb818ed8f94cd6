"""Entry point of the checks:  python -m dst.check C01"""
from __future__ import annotations

import sys

from . import boot

if __name__ == "__main__":
    boot.ensure_env()
    from . import main

    sys.exit(main.check(sys.argv[1:]))
