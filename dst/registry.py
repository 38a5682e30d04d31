import glob
import importlib
import os

HERE = os.path.dirname(os.path.abspath(__file__))
IDS = sorted(os.path.basename(p)[:-3].upper()
             for p in glob.glob(os.path.join(HERE, 'props', 'c[0-9][0-9].py')))


def load(ids=None):
    out = {}
    for i in (ids or IDS):
        m = importlib.import_module('dst.props.' + i.lower())
        out[i] = m.CHECK
    return out
