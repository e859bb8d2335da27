#!/usr/bin/env python3
"""check.py ID...: run the static checks of the named properties."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import main  # noqa: E402

sys.exit(main())
