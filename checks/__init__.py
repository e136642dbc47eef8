"""One module per property; importing it registers its harnesses."""
import importlib
from symx.harness import REGISTRY


def loadProperty(prop):
    if prop not in REGISTRY:
        importlib.import_module(f'checks.{prop}')
    return REGISTRY[prop]
