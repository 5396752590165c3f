"""Access to the code under test."""
import importlib
import io
import sys
import warnings

from .core import REPO, sut

warnings.filterwarnings("ignore")


def quiet():
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass


def mod(name):
    return importlib.import_module(name)


def load(xml, what="load"):
    """a record from its text, through the public loader"""
    return sut(mod("mahjong.record.reader").from_file, io.StringIO(xml), what=what)


class Fresh:
    """Context: the code under test imported anew (as in a fresh process); restores the old modules."""

    def __init__(self, *names, keep=()):
        self.names = names
        self.keep = keep          # prefixes of modules that stay as they are

    def _loaded(self):
        return {k: v for k, v in sys.modules.items() if (k == "mahjong" or k.startswith("mahjong.")) and not (
            self.keep and k.startswith(self.keep))}

    def __enter__(self):
        self.saved = self._loaded()
        for k in self.saved:
            del sys.modules[k]
        for n in self.names:
            importlib.import_module(n)
        return self

    def __exit__(self, *a):
        self.mods = self._loaded()
        for k in self.mods:
            del sys.modules[k]
        sys.modules.update(self.saved)
        return False


class Frozen:
    """Context: what PyInstaller's loader sets in the packaged programs (the data files lie in the unpacked bundle)"""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        if self.on:
            sys.frozen, sys._MEIPASS = True, REPO
        return self

    def __exit__(self, *a):
        for name in ("frozen", "_MEIPASS"):
            if hasattr(sys, name):
                delattr(sys, name)
        return False
