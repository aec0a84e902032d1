"""C20: conversion to a sparse filterbank and its application in Python."""
from vc import py


def run(tier, seed, secs):
    dyn = py.rundyn('C20', tier, seed, 60 if tier == 'quick' else 300)
    r = py.collect([], dyn)
    r['bounded'].append(dict(fn='signal.sparse_filterbank, sparse_filterbank_reduce, sparse_filterbank_serialize', why='bounded: random matrices up to 6x9'))
    return r


def replay(x): return py.rundyn('C20', 'quick', 1, 60, replay=x)['replay']
