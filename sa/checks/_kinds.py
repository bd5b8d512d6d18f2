"""real electrode kinds as contract-free objects"""
from ._kern import *

MK = '''
import numpy as np
def cover(C, a, h): return C(height=h)
def point(C, a, n, h): return C(points=a["pt"], areas=a["ar"], cover_nmax=n, cover_height=h)
def poly(C, a, n, h): return C(paths=a["paths"], cover_nmax=n, cover_height=h)
def mesh(C, a, n, h): return C(points=a["mp"], edges=a["me"], polygons=a["mq"], potentials=a["mv"], cover_nmax=n, cover_height=h)
def grid(C, a): return C(data=a["data"], origin=a["origin"], spacing=a["spacing"])
'''
CLS = dict(cover="CoverElectrode", point="PointPixelElectrode", poly="PolygonPixelElectrode", mesh="MeshPixelElectrode",
           grid="GridElectrode")


class Kinds(Kern):
    def __init__(self, ck):
        Kern.__init__(self, ck, "electrode", COMP)
        I = self.I
        self.cls = {k: ck.attr(I, "electrode", c) for k, c in CLS.items()}
        self.m = ck.spec(I, MK, "kinds")

    def args(self, big=True):
        I = self.I
        n = 2 if big else 1
        a = dict(pt=self.arr("pt", n, 2), ar=self.arr("ar", n), mp=self.arr("mp", 3, 2), me=self.ints([[2, 0], [0, 1], [1, 2]][:n + 1]),
                 mq=self.ints([0, 0, 1][:n + 1]), mv=self.arr("mv", 2),
                 paths=I.new_list([self.arr("pa", 3, 2), self.arr("pb", 3, 2)][:n]),
                 data=I.new_list([self.arr("g%d" % d, 2, 3, 2, 2*d + 1) for d in range(3)]),
                 origin=self.arr("or", 3), spacing=self.arr("sp", 3))
        return I.call(I.builtins["dict"], [], a)

    def make(self, kind, a, nmax=None, h=None):
        I = self.I
        f = I.get(self.m, kind)
        if kind == "cover":
            return self.ck.run(I, f, self.cls[kind], a, h)
        if kind == "grid":
            return self.ck.run(I, f, self.cls[kind], a)
        return self.ck.run(I, f, self.cls[kind], a, nmax, h)
