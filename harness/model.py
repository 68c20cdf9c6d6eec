"""Projection between specification states and real pycba objects."""
from __future__ import annotations

import math
import os
import sys

import numpy as np

from core import Mismatch, micro, pico


def section(pieces):
    """spec rigidity -> scalar or SectionEI"""
    from pycba import SectionEI

    if len(pieces) == 1 and len(pieces[0]["xs"]) == 1:
        return micro(pieces[0]["ys"][0])
    s = SectionEI()
    k = 0
    while k < len(pieces):
        p = pieces[k]
        xs = [micro(x) for x in p["xs"]]
        ys = [micro(y) for y in p["ys"]]
        if len(ys) == 1:
            s.add_segment("const", [micro(p["x0"]), micro(p["x1"])], ys[0])
        elif len(ys) == 2:
            # consecutive linear pieces that meet make one piecewise-linear segment
            while (k + 1 < len(pieces) and len(pieces[k + 1]["ys"]) == 2
                   and pieces[k + 1]["ys"][0] == pieces[k]["ys"][1]):
                k += 1
                xs.append(micro(pieces[k]["xs"][1]))
                ys.append(micro(pieces[k]["ys"][1]))
            s.add_segment("linear" if len(xs) == 2 else "pwl", xs, ys)
        else:
            s.add_segment("poly", xs, ys)
        k += 1
    return s


def lm_of(rows):
    return [[r[0], r[1]] + [micro(a) for a in r[2:]] for r in rows]


def beam_args(b, force_section=False):
    L = [micro(s["L"]) for s in b["spans"]]
    EI = [section(s["ei"]) for s in b["spans"]]
    GA = [section(s["ga"]) if s["ga"] else None for s in b["spans"]]
    KF = [micro(s["kf"]) if s["kf"] else None for s in b["spans"]]
    et = [s["et"] for s in b["spans"]]
    R = [(-1 if r < 0 else (micro(r) if r > 0 else 0)) for r in b["rest"]]
    D = [micro(d) if s else None for s, d in zip(b["dset"], b["disp"])]
    # the same beam may be given in several ways
    way = sum(s["L"] for s in b["spans"]) // 500000 % 4
    if way in (1, 2):
        EI, GA, KF = uniform(EI), uniform(GA), uniform(KF)
    if way == 1 and all(t == 1 for t in et):
        et = None
    elif way == 3:
        et = [("FF", "FP", "PF", "PP")[t - 1] if i % 2 else t for i, t in enumerate(et)]
    if way == 2:
        L, R, et = np.array(L), np.array(R), np.array(et)
    kw = {"L": L, "EI": EI, "R": R, "eletype": et}
    if any(d is not None for d in D):
        kw["D"] = D
    if any(s["ga"] for s in b["spans"]):
        kw["GAv"] = GA
    if any(s["kf"] for s in b["spans"]):
        kw["kf"] = KF
    return kw


def uniform(vals):
    """one number for all the spans, where they share it"""
    return vals[0] if isinstance(vals[0], float) and all(v == vals[0] for v in vals) else vals


def make_analysis(b, rows):
    import pycba

    return pycba.BeamAnalysis(LM=lm_of(rows), **beam_args(b))


def reactions_of(b, react):
    """spec support actions -> (R, Rs) as the library lists them"""
    R = [react[i] for i in range(len(react)) if b["rest"][i] < 0]
    # a spring whose displacement is imposed reports its own force, -k * d
    Rs = [-b["rest"][i] * b["disp"][i] * 10**28 if b["dset"][i] else react[i]
          for i in range(len(react)) if b["rest"][i] > 0]
    return R, Rs


class Cmp:
    """Comparison helper that names the failing clause."""

    def __init__(self, stats, where=""):
        self.stats = stats
        self.where = where

    def __call__(self, what, got, want, tol):
        self.stats["cmp"] += 1
        try:
            g = float(got)
        except Exception:
            raise Mismatch(f"{self.where}{what}: got {got!r}, expected {want!r}")
        if not math.isfinite(g) or abs(g - want) > tol:
            raise Mismatch(f"{self.where}{what}: got {g!r}, expected {want!r} (tolerance {tol:.3g})")

    def between(self, what, got, lo, hi, tol):
        self.stats["cmp"] += 1
        a, b = min(lo, hi), max(lo, hi)
        g = float(got)
        if not math.isfinite(g) or g < a - tol or g > b + tol:
            raise Mismatch(f"{self.where}{what}: got {g!r}, expected within [{a!r}, {b!r}] (tolerance {tol:.3g})")

    def equal(self, what, got, want):
        self.stats["cmp"] += 1
        if got != want:
            raise Mismatch(f"{self.where}{what}: got {got!r}, expected {want!r}")

    def true(self, what, cond):
        self.stats["cmp"] += 1
        if not cond:
            raise Mismatch(f"{self.where}{what}")
