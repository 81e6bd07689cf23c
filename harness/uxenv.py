"""Environment of every check: import the package from /repo's working tree and
build the C++ engine from it into a scratch directory of this process."""
import atexit, importlib.util, os, shutil, subprocess, sys, tempfile, sysconfig, glob

REPO = os.environ.get("UX_REPO", "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ.setdefault("OMP_WAIT_POLICY", "passive")
os.environ.setdefault("GOMP_SPINCOUNT", "0")
sys.dont_write_bytecode = True

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="uxverif_")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


class MachineryError(Exception):
    pass


_cpp_proc = None
_cpp_so = None


def start_cpp_build():
    """Start compiling the C++ engine in the background."""
    global _cpp_proc, _cpp_so
    if _cpp_proc is not None or _cpp_so is not None:
        return
    import nanobind
    nb = os.path.dirname(nanobind.__file__)
    out = os.path.join(scratch(), "cpp")
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, "uxsim_cpp.so")
    inc = ["-I" + sysconfig.get_path("include"), "-I" + os.path.join(nb, "include"),
           "-I" + os.path.join(nb, "ext", "robin_map", "include")]
    flags = ["-std=gnu++17", "-fopenmp", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-fno-strict-aliasing"]
    src = [os.path.join(REPO, "uxsim", "trafficpp", "bindings.cpp")]
    # the other translation units, unless bindings.cpp includes them itself
    text = open(src[0]).read()
    for f in sorted(glob.glob(os.path.join(REPO, "uxsim", "trafficpp", "*.cpp"))):
        b = os.path.basename(f)
        if b != "bindings.cpp" and ('"%s"' % b) not in text:
            src.append(f)
    lib = "/opt/uxsim-build/libnanobind-static.a"
    if os.path.exists(lib):
        nbsrc = lib
        pre = ""
    else:
        nbsrc = os.path.join(out, "nb.o")
        pre = "g++ -O1 %s %s -c -o %s %s && " % (" ".join(flags), " ".join(inc), nbsrc,
                                                os.path.join(nb, "src", "nb_combined.cpp"))
    cmd = pre + "g++ -O1 %s %s -shared -Wl,-s -o %s %s %s" % (
        " ".join(flags), " ".join(inc), so, " ".join(src), nbsrc)
    _cpp_proc = (subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), so)


def finish_cpp_build():
    global _cpp_so, _cpp_proc
    if _cpp_so is None:
        start_cpp_build()
        p, so = _cpp_proc
        out = p.communicate()[0]
        if p.returncode != 0:
            raise MachineryError("C++ engine does not compile:\n" + out.decode()[-3000:])
        _cpp_so = so
    return _cpp_so


_ux = None


def load(cpp=False):
    """Import uxsim from REPO (and register the freshly built C++ module)."""
    global _ux
    if cpp and "uxsim.uxsim_cpp" not in sys.modules:
        so = finish_cpp_build()
        spec = importlib.util.spec_from_file_location("uxsim.uxsim_cpp", so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["uxsim.uxsim_cpp"] = mod
        spec.loader.exec_module(mod)
    if _ux is None:
        if REPO != "/repo":
            sys.meta_path[:] = [m for m in sys.meta_path if "ScikitBuild" not in type(m).__name__]
            sys.path[:] = [p for p in sys.path if p != "/repo"]
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import warnings
        warnings.simplefilter("ignore")
        try:
            import uxsim
        except Exception as e:
            raise MachineryError("uxsim does not import: %r" % e)
        if not os.path.abspath(uxsim.__file__).startswith(os.path.abspath(REPO)):
            raise MachineryError("uxsim imported from " + uxsim.__file__)
        import uxsim.analyzer as an
        an.load_font_data = lambda *a, **k: b""
        _ux = uxsim
    if cpp:
        sys.modules["uxsim"].uxsim_cpp = sys.modules["uxsim.uxsim_cpp"]
    return _ux
