"""Extensions matching the current /repo sources, built outside /repo when stale."""
import hashlib
import os
import subprocess
import sysconfig

REPO = os.environ.get("VF_REPO", "/repo")
CACHE = "/tmp/vf_build"
PY = "/opt/venv/bin/python"
EXT = {
    "_delaunay": "SeismicMesh/generation/cpp/delaunay.cpp",
    "_delaunay_class": "SeismicMesh/generation/cpp/delaunay_class.cpp",
    "_delaunay_class3": "SeismicMesh/generation/cpp/delaunay_class3.cpp",
    "_fast_geometry": "SeismicMesh/geometry/cpp/fast_geometry.cpp",
    "_cpputils": "SeismicMesh/migration/cpp/cpputils.cpp",
    "_FastHJ": "SeismicMesh/sizing/cpp/FastHJ.cpp",
}
CGAL = {"_delaunay", "_delaunay_class", "_delaunay_class3"}


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def env(bd):
    e = dict(os.environ)
    e.update(PYTHONPATH=(bd + ":" if bd else "") + REPO, MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_rmaps_base_oversubscribe="1", VF_REPO=REPO)
    return e


def ensure(only=None):
    """returns (directory to put first on sys.path or '', log)"""
    stale = []
    hdr = hashlib.sha256()
    nh = 0
    for root, dirs, files in os.walk(os.path.join(REPO, "SeismicMesh")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".hh", ".hxx", ".inc", ".ipp")):
                hdr.update(open(os.path.join(root, f), "rb").read())
                nh += 1
    for name, src in EXT.items():
        if only and name not in only:
            continue
        st = os.path.join(REPO, "build", "vp-stamps", name)
        h = sha(os.path.join(REPO, src))
        fresh = False
        try:
            fresh = nh == 0 and open(st).read().strip().split()[0] == h
        except (OSError, IndexError):
            pass
        if fresh and any(f.startswith(name + ".") and f.endswith(".so") for f in os.listdir(REPO)):
            continue
        stale.append((name, src, h))
    if not stale:
        return "", ""
    key = hashlib.sha256((hdr.hexdigest() if nh else "").encode() + "".join(h for _, _, h in stale).encode()).hexdigest()[:16]
    d = os.path.join(CACHE, key)
    os.makedirs(d, exist_ok=True)
    inc = subprocess.check_output([PY, "-m", "pybind11", "--includes"], text=True).split()
    suffix = subprocess.check_output(
        [PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
    procs = []
    for name, src, h in stale:
        out = os.path.join(d, name + suffix)
        if os.path.exists(out):
            continue
        tmp = out + f".{os.getpid()}.tmp"
        cmd = ["g++", "-O2", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-w", *inc,
               os.path.join(REPO, src), "-o", tmp]
        if name in CGAL:
            cmd += ["-lgmp", "-lmpfr"]
        procs.append((tmp, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for tmp, out, p in procs:
        so, _ = p.communicate()
        if p.returncode:
            return None, so.decode(errors="replace")[-2000:]
        os.replace(tmp, out)
    return d, ""
