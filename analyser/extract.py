"""Build the extraction driver and dump /repo's library through it."""
import os
import re
import subprocess
import tomllib

STOP = "core::panicking;core::fmt;core::str::slice_error_fail"
DEBUG = ["-Cdebug-assertions=on", "-Coverflow-checks=on"]
RELEASE = ["-Cdebug-assertions=off", "-Coverflow-checks=off"]


class ExtractError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def driver(here, scratch):
    """path of the driver, built from source when setup has not left one"""
    src = os.path.join(here, "driver", "main.rs")
    built = os.path.join(here, "build", "drv")
    if os.path.exists(built) and os.path.getmtime(built) >= os.path.getmtime(src):
        return built
    out = os.path.join(scratch, "drv")
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out], capture_output=True,
                       text=True, cwd=scratch)
    if r.returncode:
        raise ExtractError("driver does not build: " + r.stderr[-2000:])
    return out


def shims(here, scratch):
    src = os.path.join(here, "driver", "shims.rs")
    built = os.path.join(here, "build", "libverif_shims.rmeta")
    if os.path.exists(built) and os.path.getmtime(built) >= os.path.getmtime(src):
        return built
    out = os.path.join(scratch, "libverif_shims.rmeta")
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "verif_shims",
                        "-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=off", "-Cdebug-assertions=off",
                        "--emit=metadata", src, "-o", out], capture_output=True, text=True, cwd=scratch)
    if r.returncode:
        raise ExtractError("shims do not build: " + r.stderr[-2000:])
    return out


def lib_info(repo):
    t = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
    lib = t.get("lib", {})
    name = lib.get("name", t["package"]["name"].replace("-", "_"))
    path = os.path.join(repo, lib.get("path", "src/lib.rs"))
    return name, path, str(t["package"].get("edition", "2015")), t


def dump(here, repo, scratch, flags=DEBUG, out="dump.json"):
    name, path, edition, _ = lib_info(repo)
    root = sysroot()
    dst = os.path.join(scratch, out)
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(root, "lib"), VERIF_DUMP=dst, VERIF_STOP=STOP,
               CARGO_PKG_VERSION="0.1.0", CARGO_PKG_NAME=name, CARGO_MANIFEST_DIR=repo)
    r = subprocess.run([driver(here, scratch), path, "--crate-type", "lib", "--crate-name", name, "--edition", edition,
                        "--sysroot", root, "-Zmir-opt-level=0", "--emit=metadata", "-A", "warnings", "-Zunstable-options",
                        "--extern", "force:verif_shims=" + shims(here, scratch), "-o",
                        os.path.join(scratch, "x.rmeta")] + flags,
                       capture_output=True, text=True, cwd=repo, env=env)
    if r.returncode or not os.path.exists(dst):
        raise ExtractError("the library does not compile for analysis: " + r.stderr[-3000:])
    return dst
