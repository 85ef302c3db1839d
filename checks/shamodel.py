"""What a sky map's hash is made of: the bytes recorded in every registered repository."""
import hashlib
import struct

NAMES = dict(rings="RingsSkyMap", discrete="DiscreteSkyMap", dodeca="DodecaSkyMap", equat="EquatSkyMap",
             healpix="HealpixSkyMap")


def full(spec):
    """The spec with the defaults of its class filled in."""
    kind = spec["kind"]
    out = dict(tractOverlap=1.0, pixelScale=0.333, projection="STG", rotation=0.0,
               builder=dict(name="legacy", inner=[4000, 4000], border=100))
    if kind == "dodeca":
        out.update(tractOverlap=3.5, pixelScale=0.2, withTractsOnPoles=False,
                   builder=dict(name="legacy", inner=[4000, 4000], border=250))
    elif kind == "equat":
        out.update(projection="CEA", numTracts=4, decRange=[-1.25, 1.25])
    elif kind == "healpix":
        out.update(rotation=45.0, log2NSide=0, nest=False)
    elif kind == "rings":
        out.update(raStart=0.0)
    elif kind == "discrete":
        out.update(raList=[], decList=[], radiusList=[])
    for k, v in spec.items():
        if v is not None:
            out[k] = v
    if out["builder"]["name"] == "cells":
        out["builder"] = dict(dict(cell=150, cellBorder=50, perPatch=20, inBorder=1), **out["builder"])
    else:
        border = 250 if kind == "dodeca" else 100
        out["builder"] = dict(dict(inner=[4000, 4000], border=border), **out["builder"])
    return out


def geometryKey(spec):
    """Everything the map's geometry depends on (but the rings version: see known_findings.jsonl)."""
    s = full(spec)
    b = s["builder"]
    if b["name"] == "legacy":
        bk = ("legacy", tuple(b["inner"]), b["border"])
    else:
        bk = ("cells", b["cell"], b["cellBorder"], b["perPatch"], b["inBorder"])
    key = (s["kind"], bk, float(s["tractOverlap"]), float(s["pixelScale"]), s["projection"], float(s["rotation"]))
    for name in ("numRings", "raStart", "raList", "decList", "radiusList", "withTractsOnPoles", "numTracts", "decRange",
                 "log2NSide", "nest"):
        v = s.get(name)
        key += (tuple(float(x) for x in v) if isinstance(v, list) else v,)
    return key


def sha1(spec):
    s = full(spec)
    b = s["builder"]
    tail = struct.pack("<dd3sd", s["tractOverlap"], s["pixelScale"], s["projection"].encode("ascii"), s["rotation"])
    if b["name"] == "legacy":
        body = struct.pack("<iii", b["inner"][0], b["inner"][1], b["border"]) + tail
    else:
        body = struct.pack("<iiiii", b["cell"], b["cell"], b["cellBorder"], b["perPatch"], b["inBorder"]) + tail
    kind = s["kind"]
    if kind == "rings":
        body += struct.pack("<id", s["numRings"], s["raStart"])
    elif kind == "discrete":
        for name in ("raList", "decList", "radiusList"):
            body += struct.pack("<%dd" % len(s[name]), *s[name])
    elif kind == "dodeca":
        body += struct.pack("<?", s["withTractsOnPoles"])
    elif kind == "equat":
        body += struct.pack("<i2d", s["numTracts"], *s["decRange"])
    else:
        body += struct.pack("<i?", s["log2NSide"], s["nest"])
    return hashlib.sha1(NAMES[kind].encode("utf-8") + body).digest()
