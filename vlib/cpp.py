"""Builds the native tools of the current tree into a scratch folder: once as the project does, once with sanitizers."""
import os, subprocess, shutil, resource
import core
PLAIN = ["direct_sim", "direct_sim_all", "lin_recur", "lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue"]

def build(scratch, targets=PLAIN):
    """returns an error text or None"""
    procs = []
    for kind, opts in (("plain", []), ("san", ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined"])):
        d = os.path.join(scratch, "cpp_" + kind); os.makedirs(d, exist_ok=True)
        cmd = "cmake -S %s/cpp -B %s -G Ninja %s && ninja -C %s %s" % (core.REPO, d, " ".join("'%s'" % o for o in opts), d, " ".join(targets))
        procs.append((kind, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for kind, p in procs:
        out, _ = p.communicate()
        if p.returncode: return "the native tools do not build (%s):\n%s" % (kind, out[-2000:])
    os.environ["VERIF_CPP"] = scratch
    return None

ENV = None
def _free():
    h = resource.getrlimit(resource.RLIMIT_AS)[1]; resource.setrlimit(resource.RLIMIT_AS, (h, h))   # sanitizers reserve address space
def run(san, name, *args, cwd=None, timeout=300):
    """runs one tool; a crash, sanitizer report or non-zero exit is a violation"""
    global ENV
    if ENV is None: ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")
    exe = os.path.join(os.environ["VERIF_CPP"], "cpp_san" if san else "cpp_plain", name)
    cmd = [exe] + [str(a) for a in args]
    try: p = subprocess.run(cmd, capture_output=True, text=True, env=ENV, cwd=cwd, timeout=timeout, preexec_fn=_free if san else None)
    except subprocess.TimeoutExpired: raise core.Violation("%s %s did not end within %d s" % (name, " ".join(cmd[1:]), timeout))
    if p.returncode: raise core.Violation("%s %s: exit %d\n%s" % (name, " ".join(cmd[1:]), p.returncode, (p.stderr or p.stdout)[-1500:]))
    return p.stdout
