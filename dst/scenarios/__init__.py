import importlib


def get(name):
    return importlib.import_module(f"dst.scenarios.{name}")
