"""property id -> object with FAMILIES {name: (case function,)}"""
import importlib


class Loaded:
    pass


def load(prop):
    from .props import TABLE, META
    m = importlib.import_module('mon.' + TABLE[prop])
    r = Loaded()
    r.FAMILIES = {k: (getattr(m, f),) for k, f in META[prop]['funcs'].items()}
    return r
