"""stands in for the optional package `spiral`, which is not installed here: a deterministic splitting of words into pieces"""
import sys
import types

CUTS = ['abc']      # cut before these letters


def split(word):
    pieces, cur = [], ''
    for c in word:
        if cur and c.lower() in CUTS[0]:
            pieces.append(cur)
            cur = ''
        cur += c
    return pieces + [cur] if cur else pieces


def install():
    if 'spiral' not in sys.modules:
        pkg, mod = types.ModuleType('spiral'), types.ModuleType('spiral.ronin')
        pkg.__path__ = []
        pkg.ronin = mod
        mod.split = split
        sys.modules['spiral'] = pkg
        sys.modules['spiral.ronin'] = mod
