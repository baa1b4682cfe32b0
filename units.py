"""The explorers of every property: which harness is built with which element type and backend."""

BACKENDS = {
    # assertions stay on for the built-in backend, as in a debug build; the others are built like the repository builds them
    "int": dict(defs=["-DLALIB_INTERNAL_BACKEND"], libs=[]),
    "blas": dict(defs=["-DLALIB_BLAS_BACKEND", "-DNDEBUG"], libs=["-lopenblas"]),
    "acc": dict(defs=["-DLALIB_INTERNAL_BACKEND", "-DLALIB_USE_ACCELERATOR"], libs=[]),
    "lapack": dict(defs=["-DLALIB_BLAS_BACKEND", "-DLALIB_LAPACK_BACKEND", "-DNDEBUG"], libs=["-llapacke", "-lopenblas"]),
}
ELEMS = {"e": "long double", "d": "double", "f": "float", "z": "std::complex<double>", "c": "std::complex<float>"}


def U(src, elem, backend, **kw):
    name = "%s-%s-%s" % (src.split(".")[0], elem, backend)
    return dict(name=name, src=src, elem=ELEMS[elem], backend=backend, **kw)


def grid(src, spec, **kw):
    """spec: 'd:int,blas f:int ...'"""
    r = []
    for s in spec.split():
        e, bs = s.split(":")
        for b in bs.split(","):
            t = b.endswith("+")            # thorough only
            r.append(U(src, e, b.rstrip("+"), thorough_only=t, **kw))
    return r


def build_b01(u, d, repo, verif, env):
    """three shared objects (one per backend) and the enumerator that drives them"""
    import subprocess, os
    exe = os.path.join(d, u["name"])
    base = ["g++", "-std=gnu++20", "-fopenmp", "-w", "-g1", "-O1", "-DELEM=" + u["elem"]] + ([] if "complex" in u["elem"] else ["-DELEM_REAL"]) + ["-I" + verif + "/mc", "-I" + verif + "/checks", "-I" + repo + "/include"]
    cmds = [base + ["-fPIC", "-shared", "-fvisibility=hidden", "-fno-gnu-unique", "-Wl,-Bsymbolic"] + b["defs"] + [verif + "/checks/B01_driver.cpp", "-o", "%s.%s.so" % (exe, n)] + b["libs"]
            for n, b in BACKENDS.items() if n != "acc"]
    cmds.append(base + ["-DLALIB_INTERNAL_BACKEND", verif + "/checks/B01.cpp", "-o", exe, "-ldl"])
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)) for c in cmds]
    for c, p in ps:
        o = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            return None, " ".join(c) + "\n" + o
    return exe, ""


def build_conc(u, d, repo, verif, env):
    """harness and library instrumented, linked with the controlled runtime instead of libtsan and libgomp"""
    import subprocess, os
    exe = os.path.join(d, u["name"])
    b = BACKENDS[u["backend"]]
    o1, o2 = exe + ".o", exe + ".rt.o"
    c1 = ["g++", "-std=gnu++20", "-fopenmp", "-fsanitize=thread", "-w", "-g1", "-O0", "-fno-tree-vectorize", "-fno-builtin", "-DELEM=" + u["elem"]] + ([] if "complex" in u["elem"] else ["-DELEM_REAL"]) \
        + b["defs"] + ["-I" + verif + "/mc", "-I" + verif + "/checks", "-I" + repo + "/include", "-c", verif + "/checks/" + u["src"], "-o", o1]
    c2 = ["g++", "-std=gnu++20", "-O2", "-g1", "-w", "-fno-threadsafe-statics", "-c", verif + "/mc/omprt.cpp", "-o", o2]
    # the instrumented object comes first: its copies of shared templates win; libgomp only supplies what the runtime lacks
    c3 = ["g++", o1, o2, "-o", exe, "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-rdynamic"] + b["libs"] + ["-lpthread", "-ldl", "-lgomp"]
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)) for c in (c1, c2)]
    bad = None
    for c, p in ps:
        o = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            bad = " ".join(c) + "\n" + o
    if bad:
        return None, bad
    p = subprocess.run(c3, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return (exe, "") if p.returncode == 0 else (None, p.stdout.decode(errors="replace"))


PROPS = {
    "V01": dict(units=grid("V01.cpp", "d:int,blas,lapack,acc f:int,blas z:int,blas c:int,blas e:int")),
    "V02": dict(units=grid("V02.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "V03": dict(units=grid("V03.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "V04": dict(units=grid("V04.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int e:int") + grid("V04_two_dynamic.cpp", "d:int")),
    "D01": dict(units=grid("D01.cpp", "d:int,blas f:int z:int c:int e:int")),
    "D02": dict(units=grid("D02.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "D03": dict(units=grid("D03.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "D04": dict(units=grid("D04.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "D05": dict(units=grid("D05.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "T01": dict(units=grid("T01.cpp", "d:int,blas f:int z:int c:int e:int")),
    "T02": dict(units=grid("T02.cpp", "d:int,blas f:int z:int c:int e:int")),
    "T03": dict(units=grid("T03.cpp", "d:int,blas f:int z:int c:int e:int")),
    "S01": dict(units=grid("S01.cpp", "d:int,blas+ f:int z:int c:int e:int")),
    "S02": dict(units=grid("S02.cpp", "d:int,blas,lapack+ f:int,blas+ z:int,blas c:int,blas+ e:int")),
    "S03": dict(units=grid("S03.cpp", "d:int,blas,lapack+ f:int,blas+ z:int,blas+ c:int,blas e:int")),
    "S04": dict(units=grid("S04.cpp", "d:int,blas,lapack f:int,blas z:int,blas c:int,blas e:int")),
    "F01": dict(units=grid("F01.cpp", "d:int,lapack f:int,lapack d:blas e:int")),
    "F02": dict(units=grid("F02.cpp", "d:int f:int d:lapack e:int")),
    "F03": dict(units=grid("F03.cpp", "d:int,lapack f:int,lapack d:blas e:int")),
    "F04": dict(units=grid("F04.cpp", "d:int f:int d:blas e:int")),
    "F05": dict(units=grid("F05.cpp", "d:int,blas f:int f:blas e:int")),
    "O01": dict(units=grid("O01.cpp", "d:int,blas f:int f:blas e:int")),
    "F06": dict(units=grid("F06.cpp", "d:int,lapack f:int f:lapack d:blas e:int")),
    "H01": dict(units=grid("H01.cpp", "d:int,blas f:int z:int c:int e:int")),
    "B01": dict(units=grid("B01.cpp", "d:int f:int z:int c:int", build=build_b01),
                technique="model checking: exhaustive enumeration of operation sequences (programs) executed on the three configurations in lockstep, all observations compared",
                assumptions=["accept/reject of matrices that are singular only up to rounding may differ between configurations and is not compared"]),
    "C01": dict(units=grid("C01.cpp", "d:int,blas f:int+ z:int+ c:int", build=build_conc, hang=200),
                technique="model checking: stateless exploration of thread interleavings of the real code under a controlled OpenMP runtime, exhaustive up to a preemption or delay bound, partial-order reduced by monitored conflicts",
                rule="for every configuration (operation, length, team) every schedule within the bound is executed on the real code"),
    "C02": dict(units=grid("C02.cpp", "d:int,lapack f:int+,lapack+ z:int+", build=build_conc, hang=200),
                technique="model checking: stateless exploration of thread interleavings of the real code under a controlled pthread and OpenMP runtime, exhaustive up to a preemption bound, partial-order reduced by monitored conflicts",
                rule="for every choice of operations and calling context every schedule within the bound is executed on the real code and compared with the operations running alone"),
}
