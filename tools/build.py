"""Builds the simulation workers from /repo's current working tree.

Reads the repository's BUILD files (plain enough to be executed as Python), takes the closure of the targets a
harness needs, compiles them with ThreadSanitizer instrumentation, and links them with the simulator's own runtime.
Everything is written below /verif/build."""

import fcntl
import glob as globbing
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CXX = "/usr/bin/clang++-14"
STD = ("-nostdinc++ -cxx-isystem /usr/include/c++/12 -cxx-isystem /usr/include/x86_64-linux-gnu/c++/12 -std=c++20 "
       "-pthread")
EIGEN = "-I/usr/include/eigen3"
KINDS = ("cc_library", "cc_binary", "cc_test", "proto_library", "cc_proto_library", "py_test")
EXT_LINK = "-lglog -lprotobuf -lfmt -luuid -lm -lstdc++ -ldl -pthread"

#: harness -> repository targets, own sources (relative to /verif), sources compiled with instrumentation
HARNESS = {
    "auth": dict(labels=["//resim/auth:device_code_client"], srcs=["harness/auth.cc", "harness/world.cc"], inst=[]),
    "view": dict(labels=["//resim/visualization:view", "//resim/visualization/client:view_client"],
                 srcs=["harness/view.cc", "harness/payload.cc", "harness/world.cc"], inst=[]),
    "lib": dict(labels=["//resim/visualization/proto:view_update_to_proto", "//resim/math:multivariate_gaussian",
                        "//resim/testing:random_matrix", "//resim/time:random_duration", "//resim/time:event_schedule",
                        "//resim/time:sample_interval", "//resim/curves/proto:two_jetl_so3_to_proto",
                        "//resim/curves/proto:two_jetr_so3_to_proto", "//resim/curves/proto:two_jetr_se3_to_proto",
                        "//resim/curves/proto:t_curve_so3_to_proto", "//resim/utils:status_value",
                        "//resim/actor/state/proto:trajectory_to_proto"],
                srcs=["harness/lib.cc"], inst=["harness/lib_ops.cc"]),
}
SIM = ["sim/core.cc", "sim/interpose.cc", "sim/tsan_rt.cc", "sim/main.cc"]


class BuildError(Exception):
    pass


def absolute(label, package):
    if label.startswith(":"):
        return "//%s%s" % (package, label)
    if label.startswith(("//", "@")):
        if ":" in label:
            return label
        if "//" in label:
            return label + ":" + label.rsplit("/", 1)[1]
        return label + "//:" + label[1:]
    return "//%s:%s" % (package, label)


def read_targets():
    targets = {}

    def read(path, package):
        def rule(kind):
            def declare(name=None, srcs=(), hdrs=(), deps=(), **rest):
                label = "//%s:%s" % (package, name)
                files = [os.path.join(package, x.lstrip(":")) for x in [*srcs, *hdrs]]
                targets[label] = {
                    "kind": kind,
                    "srcs": [x for x in files if x.endswith((".cc", ".cpp", ".c", ".proto"))],
                    "deps": [absolute(x, package) for x in deps],
                    "testonly": bool(rest.get("testonly")) or "test" in (name or "") or "/testing" in package,
                }
            return declare

        def glob(include, **_):
            base = os.path.join(REPO, package)
            return [os.path.relpath(x, base) for pattern in include
                    for x in sorted(globbing.glob(os.path.join(base, pattern), recursive=True))]

        class Names(dict):
            def __missing__(self, key):
                if hasattr(__builtins__, key) or (isinstance(__builtins__, dict) and key in __builtins__):
                    raise KeyError(key)
                return lambda *a, **k: None

        names = Names({kind: rule(kind) for kind in KINDS})
        names["glob"] = glob
        with open(path) as f:
            exec(compile(f.read(), path, "exec"), names)

    for directory, subdirectories, files in os.walk(os.path.join(REPO, "resim")):
        subdirectories.sort()
        if "BUILD" in files:
            read(os.path.join(directory, "BUILD"), os.path.relpath(directory, REPO))
    return targets


def closure(targets, labels):
    found, todo = {}, list(labels)
    while todo:
        label = todo.pop(0)
        if label in found:
            continue
        found[label] = None
        todo += targets.get(label, {}).get("deps", [])
    return list(found)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


#: -finline-hint-functions: the repository relies on some member templates being emitted where they are used, so only
#: what is marked inline may be inlined away
LEVELS = ["-O1 -finline-hint-functions", "-O0"]


def generate(harness, everything=False, level=LEVELS[0]):
    targets = read_targets()
    spec = HARNESS[harness]
    missing = [x for x in spec["labels"] if x not in targets]
    labels = closure(targets, [x for x in spec["labels"] if x in targets])
    if everything or missing:
        labels = closure(targets, [x for x, t in targets.items()
                                   if t["kind"] in ("cc_library", "cc_proto_library") and not t["testonly"]])
    protos = sorted({s for x in closure(targets, [l for l, t in targets.items() if t["kind"] == "proto_library"])
                     for s in targets.get(x, {}).get("srcs", []) if s.endswith(".proto")})
    gen = os.path.join(OUT, "gen")
    obj = os.path.join(OUT, "obj")
    inc = "-I%s -I%s -I%s -I%s %s" % (REPO, gen, VERIF, os.path.join(VERIF, "stubs"), EIGEN)
    out = []
    out.append("""ninja_required_version = 1.10
builddir = %s
rule inst
  command = %s %s %s -fPIC -fsanitize=thread -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer %s -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule plain
  command = %s %s -O1 -fPIC -w %s -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule protoc
  command = cd %s && protoc -I. --cpp_out=%s $rel
rule link
  command = %s $in -o $out -rdynamic -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset %s
""" % (OUT, CXX, STD, level, inc, CXX, STD, inc, REPO, gen, CXX, EXT_LINK))
    headers = []
    for p in protos:
        base = os.path.join(gen, p[:-6] + ".pb")
        headers.append(base + ".h")
        out.append("build %s.h %s.cc: protoc %s\n  rel = %s\n" % (base, base, " ".join(os.path.join(REPO, q) for q in
                                                                  [p] + [x for x in protos if x != p]), p))
    out.append("build headers: phony %s\n" % " ".join(headers))
    objects = []
    wanted = []
    for label in labels:
        t = targets.get(label)
        if not t:
            continue
        if t["kind"] == "proto_library":
            wanted += [(os.path.join(gen, s[:-6] + ".pb.cc"), "plain") for s in t["srcs"] if s.endswith(".proto")]
        elif t["kind"] == "cc_library":
            wanted += [(os.path.join(REPO, s), "inst") for s in t["srcs"] if s.endswith((".cc", ".cpp"))]
    seen = set()
    for src, rule in wanted:
        if src in seen:
            continue
        seen.add(src)
        rel = os.path.relpath(src, REPO if src.startswith(REPO) else gen)
        o = os.path.join(obj, "repo", rel + ".o")
        objects.append((rule != "inst", o))
        out.append("build %s: %s %s || headers\n" % (o, rule, src))
    # instrumented objects first: their copies of inline functions win
    order = [o for late, o in objects if not late]
    for src in spec["inst"]:
        o = os.path.join(obj, "verif", src + ".inst.o")
        out.append("build %s: inst %s || headers\n" % (o, os.path.join(VERIF, src)))
        order.append(o)
    order += [o for late, o in objects if late]
    for src in spec["srcs"] + SIM:
        o = os.path.join(obj, "verif", src + ".o")
        out.append("build %s: plain %s || headers\n" % (o, os.path.join(VERIF, src)))
        order.append(o)
    exe = os.path.join(OUT, "bin", harness)
    out.append("build %s: link %s\n" % (exe, " ".join(order)))
    out.append("default %s\n" % exe)
    path = os.path.join(OUT, "ninja-%s.ninja" % harness)
    write_if_changed(path, "\n".join(out))
    return path, exe


def forget_stale_objects():
    """ninja compares times; a file whose content changed while its time did not advance would be missed."""
    record, now = os.path.join(OUT, "sources.json"), {}
    for base in (os.path.join(REPO, "resim"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "harness"),
                 os.path.join(VERIF, "stubs")):
        for directory, _, files in os.walk(base):
            for name in files:
                path = os.path.join(directory, name)
                try:
                    with open(path, "rb") as f:
                        now[path] = [hashlib.sha256(f.read()).hexdigest(), os.stat(path).st_mtime]
                except OSError:
                    pass
    try:
        with open(record) as f:
            before = json.load(f)
    except (OSError, ValueError):
        before = {}
    if any(p in before and before[p][0] != now[p][0] and now[p][1] <= before[p][1] for p in now) or \
            any(p not in now for p in before):
        shutil.rmtree(os.path.join(OUT, "obj"), ignore_errors=True)
        shutil.rmtree(os.path.join(OUT, "gen"), ignore_errors=True)
    with open(record, "w") as f:
        json.dump(now, f)


def build(harness, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget_stale_objects()
        text = ""
        for everything, level in ((False, LEVELS[0]), (True, LEVELS[0]), (True, LEVELS[1])):
            path, exe = generate(harness, everything, level)
            # -d keepdepfile is not needed; one ninja log per harness keeps builds independent
            r = subprocess.run(["/usr/bin/ninja", "-f", path, "-j", str(os.cpu_count() or 8)], cwd=OUT,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            text = r.stdout
            if r.returncode == 0:
                return exe
            if "undefined reference" not in text and "undefined symbol" not in text:
                break
        raise BuildError(text[-6000:])


if __name__ == "__main__":
    for h in sys.argv[1:] or HARNESS:
        try:
            print(build(h))
        except BuildError as e:
            print(e)
            sys.exit(2)
