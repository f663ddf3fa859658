#!/usr/bin/env python3
"""Private build of /repo's current working tree.

The tree is mirrored by content (never by time stamp) into /verif/build/src and built out of
tree in /verif/build/b with the project's own autotools files, so whatever the working tree
says now is what the checks run.  Nothing is written in /repo."""
import os, sys, subprocess, hashlib, fcntl, shutil, filecmp, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
B = os.path.join(BUILD, "b")
BIN = os.path.join(B, "src")

OMPI = {
 "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
 "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
 "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl": "self,vader",
 "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
}

def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)

def _listing():
    # files of the working tree; anything the project's .gitignore names is build output
    try:
        out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
                             capture_output=True, check=True).stdout
        files = [f.decode() for f in out.split(b"\0") if f]
    except Exception:
        files = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "_build", "autom4te.cache")]
            for f in fs:
                files.append(os.path.relpath(os.path.join(d, f), REPO))
    return [f for f in files if os.path.lexists(os.path.join(REPO, f))]

def sync():
    changed = []
    files = set(_listing())
    man = os.path.join(BUILD, "manifest.txt")
    old = set(open(man).read().split("\n")) if os.path.exists(man) else set()
    for f in sorted(files):
        s, d = os.path.join(REPO, f), os.path.join(SRC, f)
        if os.path.islink(s):
            if os.path.lexists(d):
                if os.path.islink(d) and os.readlink(d) == os.readlink(s):
                    continue
                os.unlink(d)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            os.symlink(os.readlink(s), d); changed.append(f); continue
        if os.path.isfile(d) and filecmp.cmp(s, d, shallow=False):
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(s, d); shutil.copymode(s, d)
        changed.append(f)
    for f in old - files:
        p = os.path.join(SRC, f)
        if f and os.path.lexists(p):
            os.unlink(p); changed.append(f)
    open(man, "w").write("\n".join(sorted(files)))
    return changed

def _run(cmd, cwd, logf, env=None):
    with open(logf, "ab") as fh:
        fh.write(("$ %s\n" % " ".join(cmd)).encode())
        return subprocess.run(cmd, cwd=cwd, stdout=fh, stderr=fh, env=env).returncode

class BuildError(Exception):
    pass

def build(targets=None):
    """Bring the private build up to date. targets: names under b/src, or None for everything."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        os.makedirs(SRC, exist_ok=True)
        changed = sync()
        lf = os.path.join(BUILD, "build.log")
        open(lf, "w").close()
        env = dict(os.environ)
        for k in ("VERBOSE", "MAKEFLAGS", "MAKELEVEL", "PYTHONPATH", "TESTS", "CFLAGS", "FCFLAGS", "CC", "FC"):
            env.pop(k, None)
        env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        if not os.path.exists(os.path.join(SRC, "configure")) or not os.path.exists(os.path.join(SRC, "Makefile.in")):
            if _run(["autoreconf", "-i"], SRC, lf, env):
                raise BuildError("autoreconf failed; see " + lf)
        os.makedirs(B, exist_ok=True)
        if not os.path.exists(os.path.join(B, "config.status")) or not os.path.exists(os.path.join(B, "Makefile")):
            if _run(["../src/configure", "--with-mpi", "CC=gcc", "FC=gfortran"], B, lf, env):
                raise BuildError("configure failed; see " + lf)
        # the makefiles do not track Fortran modules: recompile all Fortran if any of it changed
        h = hashlib.sha256()
        ffiles = []
        for top in ("lib", "src", "tools"):
            for d, ds, fs in os.walk(os.path.join(SRC, top)):
                for f in sorted(fs):
                    if f.lower().endswith((".f90", ".inc")) or (top == "tools" and f.endswith(".h")):
                        ffiles.append(os.path.join(d, f))
        for f in sorted(ffiles):
            h.update(f.encode()); h.update(open(f, "rb").read())
        sumf = os.path.join(B, ".fortran.sum")
        cur = h.hexdigest()
        if os.path.exists(sumf) and open(sumf).read() != cur:
            os.unlink(sumf)
            bases = {os.path.splitext(os.path.basename(f))[0] for f in ffiles if f.lower().endswith(".f90")}
            for top in ("lib", "src", "tools"):
                for d, ds, fs in os.walk(os.path.join(B, top)):
                    for f in fs:
                        b = f[:-2] if f.endswith(".o") else None
                        if f.endswith(".mod") or f in ("libnfu.a", "libnctf.a") or \
                           (b is not None and (b in bases or b.split("-")[-1] in bases or any(b.endswith("-" + x) for x in bases))):
                            os.unlink(os.path.join(d, f))
        def mk(d, tg):
            return _run(["make", "-C", d, "-j8"] + tg, B, lf, env)
        if targets is None:
            rc = mk(B, []) and mk(B, [])
        else:
            rc = mk(os.path.join(B, "lib"), []) and mk(os.path.join(B, "lib"), [])
            if not rc:
                tg = sorted(set(targets))
                # version.h / module files first, then the tools
                rc = mk(BIN, ["version.h", "version.inc", "libver.a", "print_version"]) and 0
                ftn = {"combine-ncc", "scatter-ncc", "decompress-ncc", "time_average", "list_ncvars", "plevel-interp"}
                if ftn & set(tg):
                    mk(BIN, ["libnctf.a"])
                rc = mk(BIN, tg) and mk(BIN, tg)
        if rc:
            raise BuildError("make failed; see " + lf + "\n" + "".join(open(lf, errors="replace").readlines()[-40:]))
        open(sumf, "w").write(cur)
        log("ready in %.1fs (%d files synced)" % (time.time() - t0, len(changed)))
    return BIN

if __name__ == "__main__":
    try:
        build(sys.argv[1:] or None)
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
