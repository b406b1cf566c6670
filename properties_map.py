import importlib

def load(prop):
    return importlib.import_module('props.' + prop.lower()).SPEC
