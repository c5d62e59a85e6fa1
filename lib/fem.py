"""Raw semantic model (Fem), shared by the reference interpreter and the three output readers."""
import math
import numpy as np
from lib.sem import DOF, vec, unit

class Cell:
    """nodes: node keys in Nastran order; prop/mat dictionaries"""
    __slots__ = ("kind", "nodes", "id", "groups", "prop", "mat", "name", "model", "idx", "orient")
    def __init__(s, kind, nodes, id=None, name=None):
        s.kind, s.nodes, s.id, s.name = kind, list(nodes), id, name
        s.groups, s.prop, s.mat, s.model, s.orient = set(), {}, {}, None, None
        s.idx = None

class Load:
    """One load state: what one analysis applies."""
    def __init__(s):
        s.nodal = {}       # (node, dof) -> value
        s.face = []        # (frozenset corner nodes | cell, traction vector)
        s.press = []       # (cell, face nodes in order, pressure along the right-hand normal of that order)
        s.line = []
        s.grav = np.zeros(3)
        s.gravs = []
        s.rot = []         # (center, axis unit, omega rad/s)
        s.imposed = {}     # (node, dof) -> value
        s.temp = {}
        s.other = []
    def add_nodal(s, n, d, v):
        if v != 0:
            s.nodal[(n, d)] = s.nodal.get((n, d), 0.0) + v

class Analysis:
    def __init__(s, kind, id=None):
        s.kind, s.id = kind, id
        s.load = Load()
        s.rows = []        # constraint equations (coeffs, rhs)
        s.rbe3 = []        # (master, dofs, {slave: (dofs, coef)})
        s.contacts = []
        s.par = {}

class Fem:
    def __init__(s):
        s.nodes = {}       # key -> xyz
        s.cells = []
        s.K, s.M, s.B = {}, {}, {}    # discrete matrices  ((n,dof),(n,dof)) -> value
        s.analyses = []
        s.errors = []      # malformed output
        s.groups = {}
        s.point_mass = []

def add_sym(mat, dofs, values):
    """add a full square matrix over a dof list"""
    n = len(dofs)
    for i in range(n):
        for j in range(n):
            v = values[i][j]
            if v:
                k = (dofs[i], dofs[j])
                mat[k] = mat.get(k, 0.0) + v
                if mat[k] == 0:
                    del mat[k]

SIDES = {"TR6": ((0, 1), (1, 2), (2, 0)), "QU8": ((0, 1), (1, 2), (2, 3), (3, 0))}
def sides(kind, nodes, at):
    """middle nodes of a face which are not in the middle of its sides"""
    nc = len(SIDES.get(kind, ()))
    out = []
    for k, (i, j) in enumerate(SIDES.get(kind, ())):
        a, b, m = (np.array(at[x]) for x in (nodes[i], nodes[j], nodes[nc + k]))
        if np.abs((a + b) / 2 - m).max() > 1e-3 * np.abs(a - b).max():
            out.append("face of corners %s: node %s is not in the middle of the side %s-%s" % (list(nodes[:nc]), nodes[nc + k], nodes[i], nodes[j]))
    return out
