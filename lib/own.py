"""A copy of the package for a driver whose runs write into it."""
import importlib.util
import os
import shutil
import sys


def copy_package(work):
  mine = os.path.join(work, 'mine')
  home = os.path.dirname(importlib.util.find_spec('putting_dune').origin)
  shutil.copytree(home, os.path.join(mine, 'putting_dune'), ignore=shutil.ignore_patterns('__pycache__', 'model_weights'))
  sys.path.insert(0, mine)
  return mine
