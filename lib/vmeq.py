"""Helpers to build trees, requests and results, and to read them back as plain data."""
import vtenv
import numpy as np
import Timba.octopython
from Timba import dmi
from Timba.Meq import meq
import vtimba as vt

RES_FAIL = None   # filled below

def plain(x):
    """DMI python object -> plain python (dict/list/ndarray/scalars), resolving lazy fields."""
    if isinstance(x, dict):
        out = {}
        for k in list(dict.keys(x)):
            out[str(k)] = plain(x[k])
        t = getattr(x, "__dmi_type__", None)
        return out
    if isinstance(x, dmi.hiid):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    return x

def node(cls, name, children=None, step_children=None, nodeindex=None, **kw):
    """Node definition; children are given by name (None = no child in that slot)."""
    r = dmi.record()
    r["class"] = cls
    r["name"] = name
    for k, v in kw.items():
        r[k] = v
    if nodeindex is not None:
        r["nodeindex"] = nodeindex
    r.__dict__["_vt_children"] = children
    r.__dict__["_vt_step"] = step_children
    return r

class TreeError(Exception):
    pass

def link(nodes, base=1, index=None, parents=False):
    """Assigns node indices and turns child names into indices; with parents, also tells each node its parents (as TDL does)."""
    index = dict(index or {})
    for i, n in enumerate(nodes):
        if "nodeindex" not in n:
            n["nodeindex"] = base + i
        index[n["name"]] = n["nodeindex"]
    def idx(c):
        return -1 if c is None else (c if isinstance(c, int) else index[c])
    par = {}
    for n in nodes:
        ch = n.__dict__.pop("_vt_children", None)
        st = n.__dict__.pop("_vt_step", None)
        if ch is not None:
            if isinstance(ch, dict):
                n["children"] = dmi.record(**{k: idx(v) for k, v in ch.items()})
            elif ch:
                n["children"] = [idx(c) for c in ch]
        if st:
            n["step_children"] = [idx(c) for c in st]
        if parents:
            for c in list(ch.values() if isinstance(ch, dict) else ch or []) + list(st or []):
                if c is not None:
                    par.setdefault(idx(c), set()).add(n["nodeindex"])
    for n in nodes:
        if n["nodeindex"] in par:
            n["parents"] = sorted(par[n["nodeindex"]])
    return index

def create(nodes, base=1, index=None, parents=False):
    index = link(nodes, base, index, parents)
    rep = vt.cmd("Create.Node.Batch", dmi.record(batch=list(nodes)))
    if "error" in rep:
        raise TreeError(str(rep["error"]))
    return index

# result codes (MEQ/NodeFace.h, RQIDM_NBITS = 16)
RQIDM_NBITS = 16
RES_UPDATED = 0x01 << RQIDM_NBITS
RES_IGNORE_TYPE = 0x02 << RQIDM_NBITS
RES_MISSING = 0x04 << RQIDM_NBITS
RES_OK = RES_UPDATED
RES_WAIT = 0x20 << RQIDM_NBITS
RES_ABORT = 0x40 << RQIDM_NBITS
RES_FAIL = 0x80 << RQIDM_NBITS
