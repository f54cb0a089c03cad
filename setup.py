"""Builds the extractor and the replay driver once (both are also built on demand by the checks)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.load import tool
from vc.replay import build_driver, comma_locale
print(tool()); print(build_driver()); print(comma_locale())
