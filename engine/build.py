"""Builds the two binaries of the harness from /repo's current source: instrumented (symbolic
execution) and plain (replay)."""
import json
import os
import subprocess
import sys
import glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
TARGET = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def base_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTC_WRAPPER", None)
    return env


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=base_env(), check=True,
                          stdout=subprocess.PIPE, text=True).stdout.strip()


def cargo(kind, flags):
    env = base_env()
    sr = sysroot()
    env["SYM_SYSROOT"] = sr
    env["SYM_LLVM_BIN"] = os.path.join(sr, "lib/rustlib", TARGET, "bin")
    env["SYM_CACHE"] = os.path.join(BUILD, "cache")
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, kind)
    env["RUSTFLAGS"] = flags + " -A warnings"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target", TARGET], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return os.path.join(BUILD, kind, TARGET, "debug", "harness")


def build():
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    sym = cargo("sym", f"-C linker-plugin-lto -C linker={ROOT}/engine/symlink.py -C symbol-mangling-version=v0")
    nat = cargo("native", f"-C linker={ROOT}/engine/natlink.sh")
    return sym, nat


def coverage_names():
    """Coverage id -> symbol, over all instrumented modules."""
    import zlib
    names = {}
    stats = {"fp": 0, "override": 0, "trap": 0}
    for f in glob.glob(os.path.join(BUILD, "cache", "*.stats")):
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        for s in d.get("cov", []):
            names[zlib.crc32(s.encode()) & 0x7fffffff] = s
    return names


def demangle(syms):
    p = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")


if __name__ == "__main__":
    print(build())
