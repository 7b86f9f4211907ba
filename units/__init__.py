import importlib, os, pkgutil
for _m in pkgutil.iter_modules([os.path.dirname(__file__)]):
    importlib.import_module("units." + _m.name)
