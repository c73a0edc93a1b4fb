"""C29 Bundled mesh configurations."""
import fnmatch
import os
import tomllib

from ..harness import *  # noqa: F403
from ..values import Special

CONF = "every setting the library reads for a mesh is provided by that mesh's configuration, with the right kind of value"
FILE = "the configured mesh file is bundled"
BOX = "each minimum of the coordinate box is not above its maximum, and the box reaches the mesh"
OFFER = "every mesh offered to the user has a configuration"
READ = "the mesh that is read is the configured file, upsampled as configured"
REGION = "the region of a mesh is exactly the vertices inside the configured box"
NUMERIC = "a number"


def listing(I):
    """directory listings are taken from the source tree"""
    def gl(I2, o, a, k):
        p = I2.pieces(o)
        if not all(isinstance(x, str) for x in p):
            return OpaqueV(atom("app", ("glob",) + tuple(p), "other"))
        d = "".join(p)
        names = sorted(os.listdir(d)) if os.path.isdir(d) else []
        pat = a[0] if a else "*"
        return I2.new_list([Special("path", node=d + "/" + x) for x in names if fnmatch.fnmatch(x, pat)])
    hook(I, "pathlib.Path.glob", gl)
    hook(I, "pathlib.Path.iterdir", gl)


class Missing(Exception):
    pass


def opened(f):
    """path of an opened file"""
    n = getattr(f, "node", None)
    if isinstance(n, Atom) and n.kind == "app" and n.args[0] == "open" and all(isinstance(x, str) for x in n.args[1:]):
        return "".join(n.args[1:])
    return None


def offered():
    I = new("cold")
    listing(I)
    I.st.ctx = ()
    v = I.resolve("sleplet._class_lists.MESHES")
    c = I.st.heap[v.lid] if hasattr(v, "lid") else None
    items = list(c.items) if c is not None and c.sym is None else (list(v) if isinstance(v, tuple) else None)
    if items is None or not all(isinstance(x, str) for x in items):
        return None, I
    return items, I


def load(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def value(v, key):
    """a setting: texts as they are, numbers by name"""
    if isinstance(v, str) or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return S(f"setting_{key}", "int", nonneg=v >= 0)
    if isinstance(v, float):
        return S(f"setting_{key}", "real")
    return OpaqueV(atom("ext", ("setting", key), "other"))


def hook_config(I, reads):
    def ld(I2, f, a, k):
        p = opened(f)
        if p is None:
            raise Missing("the configuration's path is not a constant")
        reads.append(p)
        if not os.path.isfile(p):
            I2.raise_if(ONE, "FileNotFoundError")
        return I2.new_dict({key: value(v, key) for key, v in load(p).items()})
    hook(I, "tomli.load", ld)
    hook(I, "tomllib.load", ld)


def build_mesh(I, name, zoom):
    reads = []
    hook_config(I, reads)
    return run(I, I.resolve("sleplet.meshes.mesh.Mesh"), (name,), {"zoom": ONE if zoom else ZERO}), reads


def obligations(c):
    names, I0 = offered()

    def offer(rec):
        rec.seen(I0)
        if names is None:
            return rec.undecided("the list of meshes could not be evaluated")
        if not names:
            return rec.violation("no mesh is offered")
        if len(set(names)) != len(names):
            return rec.violation(f"a mesh is offered twice: {sorted(names)}")
        return rec.proved(detail=", ".join(names))
    c.ob("the offered meshes", offer, OFFER)

    def bundled(rec):
        cfgs = all_configs()
        if not cfgs:
            return rec.undecided("no configuration was found")
        d = os.path.dirname(config_path(next(iter(cfgs))))
        have = [load(os.path.join(d, x)).get("FILENAME") for x in sorted(os.listdir(d)) if x.endswith(".toml")]
        for x in sorted(os.listdir(d)):
            if x.endswith(".off") and x.removeprefix("meshes_polygons_") not in have:
                rec.violation(f"the bundled mesh {x} has no configuration", where=os.path.join(d, x), key=x)
            elif x.endswith(".off"):
                rec.proved(x)
    c.ob("the bundled meshes", bundled, "every bundled mesh has a configuration")
    for name in names or ():
        for zoom in (False, True):
            c.ob(f"{name}, zoom={zoom}", lambda rec, name=name, zoom=zoom: settings(rec, name, zoom), CONF)
        c.ob(f"{name}: mesh file and box", lambda rec, name=name: box(rec, name), BOX)
    c.ob("reading a mesh", reading, READ)
    c.ob("the region of a mesh", region, REGION)


def settings(rec, name, zoom):
    I = new("cold")
    rec.where = where_of(I, I.resolve("sleplet.meshes.mesh.Mesh"))
    try:
        out, reads = build_mesh(I, name, zoom)
    except Missing as e:
        return rec.undecided(str(e))
    rec.seen(I)
    rec.c.paths += 1
    if out.dead or out.raises:
        bad = [(x, e) for x, e in out.raises if e.cls in ("KeyError", "FileNotFoundError")]
        for _, e in bad:
            f, ln = (e.loc or ("", 0))[:2]
            what = f"the setting {e.args[0]!r} read at {f}:{ln} is not provided by {os.path.basename(reads[-1]) if reads else 'its configuration'}" if e.cls == "KeyError" and e.args else f"no configuration file {os.path.basename(reads[-1]) if reads else ''} for the offered mesh"
            return rec.violation(f"{name}: {what}", where=f"{f}:{ln}", key=f"{name}:{e.args[0] if e.args else 'file'}")
        if I.incomplete:
            return rec.undecided(I.incomplete[0])
        if out.dead:
            return rec.violation(f"{name}: building the mesh always fails: {out.raises[0][1]!r}", key=f"{name}:raises")
    if I.incomplete:
        return rec.undecided(I.incomplete[0])
    opens = [e["pieces"] for e in I.events if e["kind"] == "mesh-read"]
    if not reads or not opens:
        return rec.undecided("no configuration or mesh file was seen to be read")
    for p in opens:
        if not all(isinstance(x, str) for x in p):
            return rec.undecided("the mesh file's path is not a constant")
        if not os.path.isfile("".join(p)):
            return rec.violation(f"{name}: the mesh file {os.path.basename(''.join(p))} is not bundled", where=reads[-1], key=f"{name}:mesh file")
    rec.proved(detail=f"{reads[-1]} gives {os.path.basename(''.join(opens[-1]))}")
    # settings have the same kind of value for every mesh
    cfg = load(reads[-1])
    for other, oc in all_configs().items():
        for k in sorted(set(cfg) & set(oc)):
            if isinstance(cfg[k], str) != isinstance(oc[k], str):
                return rec.violation(f"{name}: setting {k} is {type(cfg[k]).__name__}, for {other} it is {type(oc[k]).__name__}", where=reads[-1], key=f"{name}:{k}")
    if "UPSAMPLE" in cfg and not (isinstance(cfg["UPSAMPLE"], int) and not isinstance(cfg["UPSAMPLE"], bool) and cfg["UPSAMPLE"] >= 0):
        return rec.violation(f"{name}: UPSAMPLE = {cfg['UPSAMPLE']!r} is not a number of subdivisions", where=reads[-1], key=f"{name}:UPSAMPLE")


_CONF = {}


def all_configs():
    """configurations of the offered meshes, as the library finds them"""
    if not _CONF:
        names, _ = offered()
        for n in names or ():
            p = config_path(n)
            if p and os.path.isfile(p):
                _CONF[n] = load(p)
    return _CONF


def config_path(name):
    I = new("cold")
    reads = []
    hook_config(I, reads)
    f = I.resolve("sleplet._mesh_methods.extract_mesh_config")
    run(I, f, (name,))
    return reads[-1] if reads else None


def box(rec, name):
    try:
        p = config_path(name)
    except (Missing, Unsupported):
        p = None
    if not p or not os.path.isfile(p):
        return rec.undecided("the configuration was not found")
    rec.where = p
    cfg = load(p)
    rec.c.files.add(p)
    for ax in "XYZ":
        lo, hi = cfg.get(ax + "MIN"), cfg.get(ax + "MAX")
        if not isinstance(lo, (int, float)) or not isinstance(hi, (int, float)):
            return rec.undecided(f"no numeric {ax}MIN, {ax}MAX")
        if not lo <= hi:
            return rec.violation(f"{name}: {ax}MIN = {lo} is above {ax}MAX = {hi}", key=f"{name}:{ax}")
    vs = vertices(os.path.join(os.path.dirname(p), "meshes_polygons_" + str(cfg.get("FILENAME"))))
    if not vs:
        return rec.undecided("the mesh file was not found or not understood")
    inside = [v for v in vs if all(cfg[ax + "MIN"] <= v[k] <= cfg[ax + "MAX"] for k, ax in enumerate("XYZ"))]
    if not inside:
        for k, ax in enumerate("XYZ"):
            lo, hi = min(v[k] for v in vs), max(v[k] for v in vs)
            if cfg[ax + "MIN"] > hi or cfg[ax + "MAX"] < lo:
                return rec.violation(f"{name}: the box [{cfg[ax + 'MIN']}, {cfg[ax + 'MAX']}] in {ax} misses the mesh, which spans [{lo}, {hi}]", key=f"{name}:{ax}:misses")
        return rec.undecided("no unrefined vertex lies in the box")
    rec.proved(detail=f"{len(inside)} of {len(vs)} bundled vertices lie in the box")


def vertices(path):
    """vertices of an OFF file"""
    try:
        toks = []
        with open(path) as f:
            for line in f:
                toks += line.split("#")[0].split()
        if toks[0].upper().endswith("OFF"):
            toks = toks[1:]
        n = int(toks[0])
        return [tuple(float(x) for x in toks[3 + 3 * i:6 + 3 * i]) for i in range(n)]
    except (OSError, ValueError, IndexError):
        return []


def symbolic(I):
    """any mesh, any settings"""
    def ld(I2, f, a, k):
        d = {x: S("setting_" + x, "real") for x in ("CAMERA_X", "CAMERA_Y", "CAMERA_Z", "CENTRE_X", "CENTRE_Y", "CENTRE_Z", "DEFAULT_COLOURBAR_POS", "DEFAULT_ZOOM", "REGION_COLOURBAR_POS", "REGION_ZOOM", "XMAX", "XMIN", "YMAX", "YMIN", "ZMAX", "ZMIN")}
        for c in all_configs().values():
            for x, v in c.items():
                d.setdefault(x, S("setting_" + x, "real"))
        d["UPSAMPLE"] = nat("setting_UPSAMPLE")
        d["FILENAME"] = "bird.off"
        return I2.new_dict(d)
    hook(I, "tomli.load", ld)
    hook(I, "tomllib.load", ld)


def reading(rec):
    I = new("cold")
    symbolic(I)
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    rec.where = where_of(I, cls)
    out = run(I, cls, ("bird",))
    rec.seen(I)
    if out.dead:
        return rec.undecided("the mesh could not be built")
    rd = [e for e in I.events if e["kind"] == "mesh-read"]
    if I.incomplete or not rd:
        return rec.undecided(I.incomplete[0] if I.incomplete else "no mesh is read")
    n = nat("setting_UPSAMPLE")
    want = run(I, I.resolve("spec.mesh.read"), (Special("path", node="".join(rd[-1]["pieces"])), n), st=out.st)
    compare_outs(rec, I, out.st, out, want, rec.where, I.incomplete, exc=False, post=lambda o: (fld(o, o.value, "vertices"), fld(o, o.value, "faces")))


def region(rec):
    I = new("cold")
    symbolic(I)
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    rec.where = where_of(I, cls)
    out = run(I, cls, ("bird",))
    rec.seen(I)
    if out.dead:
        return rec.undecided("the mesh could not be built")
    v = fld(out, out.value, "vertices")
    want = run(I, I.resolve("spec.region.mesh_box"), [v] + [S(f"setting_{a}{b}", "real") for a in "XYZ" for b in ("MIN", "MAX")], st=out.st)
    compare_outs(rec, I, out.st, out, want, rec.where, I.incomplete, exc=False, post=lambda o: fld(o, o.value, "mesh_region"))
