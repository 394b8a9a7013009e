import importlib
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def ids():
    return sorted(f[:-3].upper() for f in os.listdir(HERE) if f.startswith("c") and f.endswith(".py"))


def get(i):
    return importlib.import_module("dst.props." + i.lower()).CHECK
