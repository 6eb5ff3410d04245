"""Build /repo's current working tree (instrumented) together with the drivers.

Sources are copied to a directory under /verif/build keyed by content hash, so a
check always sees the current tree, concurrent checks do not disturb each other,
and nothing is written in /repo.
"""
import os, re, sys, hashlib, subprocess, shutil, fcntl, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = {
 "asan": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-U_FORTIFY_SOURCE",
          "-fno-sanitize-recover=all", "-fno-sanitize=alignment"],
 "msan": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-U_FORTIFY_SOURCE"],
 "plain": ["-g", "-O2"],
}
APPS = ["cligen_file", "cligen_hello", "cligen_tutorial"]

class BuildError(Exception):
    pass

def srclist():
    mk = open(os.path.join(REPO, "Makefile.in")).read().replace("\\\n", " ")
    m = re.search(r"^SRC\s*=\s*(.*)$", mk, re.M)
    if m:
        return [s for s in m.group(1).split() if s != "build.c" and s.endswith(".c")]
    return sorted(os.path.basename(f) for f in glob.glob(REPO + "/cligen_*.c")
                  if os.path.basename(f)[:-2] not in APPS and not f.endswith(".tab.c"))

def _digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:20]

def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def build(san="asan"):
    """Return directory holding: drv, cligen_file, cligen_hello (instrumented)"""
    flags = SAN[san]
    src = srclist()
    names = src + [a + ".c" for a in APPS] + ["cligen_parse.y", "cligen_parse.l"]
    hdrs = [os.path.basename(f) for f in glob.glob(REPO + "/*.h")
            if os.path.basename(f) not in ("cligen_config.h", "cligen_parse.tab.h")]
    repo_files = [os.path.join(REPO, n) for n in sorted(names + hdrs)]
    own = sorted(glob.glob(VERIF + "/harness/*.[ch]"))
    key = _digest(repo_files + own + [os.path.abspath(__file__)], san)
    d = os.path.join(BUILD, san + "-" + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + san + "-" + key), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/.done"):
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in repo_files:
            shutil.copy(f, d)
        for f in own:
            shutil.copy(f, d)
        os.symlink(".", d + "/cligen")
        with open(d + "/build.c", "w") as f:
            f.write('const char CLIGEN_BUILDSTR[]="verif";\nconst char CLIGEN_VERSION[64]="verif";\n')
        run(["flex", "-Pcligen_parse", "cligen_parse.l"], d)
        run(["bison", "-l", "-d", "-b", "cligen_parse", "-p", "cligen_parse", "cligen_parse.y"], d)
        lib = src + ["build.c", "lex.cligen_parse.c", "cligen_parse.tab.c"]
        drv = [os.path.basename(f) for f in own if f.endswith(".c")]
        cc = os.environ.get("VERIF_CC", "clang" if san == "msan" else "gcc")
        base = [cc] + flags + ["-w", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-I.", "-I/usr/include/libxml2"]
        objs = {}
        def comp(c):
            o = c[:-2] + ".o"
            run(base + ["-c", c, "-o", o], d)
            return o
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, lib + drv + [a + ".c" for a in APPS]))
        libo = [c[:-2] + ".o" for c in lib]
        run([cc] + flags + ["-Wl,--wrap=read,--wrap=isatty,--wrap=ioctl", "-o", "drv"] + [c[:-2] + ".o" for c in drv] + libo + ["-lxml2"], d)
        for a in APPS:
            run([cc] + flags + ["-o", a, a + ".o"] + libo + ["-lxml2"], d)
        open(d + "/.done", "w").close()
        # keep the cache bounded
        olds = sorted((x for x in glob.glob(BUILD + "/*-*") if os.path.isdir(x) and x != d),
                      key=os.path.getmtime)
        for x in olds[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        return d

if __name__ == "__main__":
    for s in (sys.argv[1:] or ["asan"]):
        print(build(s))
