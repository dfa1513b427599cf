import importlib
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def load(pid):
    """import the contract file(s) of one property; returns its META"""
    m = importlib.import_module("contracts." + pid.lower())
    return getattr(m, "META", {})
