#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py <ID> [--tier quick|thorough] [--seed N] [--replay SPEC].
Builds the library from /repo's working tree with the property's driver, runs the cases, judges, writes the evidence."""
import os, sys, json, glob, subprocess, shutil, time, re, struct, hashlib, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
CORES = max(2, min(8, os.cpu_count() or 8))
INC = ["-I" + REPO, "-I" + REPO + "/gel", "-I" + H, "-I" + H + "/conf", "-I" + H + "/conc", "-DGEL_SIMPLE_CONFIG_INCLUSION"]
RENAME = [x for f in ("malloc", "calloc", "realloc", "free") for x in ("--redefine-sym", f"{f}=mon_lib_{f}")]
OUTSIDE = [x for f in re.findall(r"OUTSIDE\((\w+)\)", open(os.path.join(H, "outside.h")).read()) for x in ("--redefine-sym", f"{f}=mon_out_{f}")]
COV = ["-fsanitize-coverage=trace-pc-guard"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]

# ---------------------------------------------------------------- builds: compiler, common flags, library-only flags
BUILDS = {
    "fast":  ("clang", ["-O2", "-g1"], COV),
    "fast0": ("clang", ["-O0", "-g1"], COV),
    "asan":  ("clang", ["-O1", "-g1"] + ASAN, COV),
    "ub0":   ("clang", ["-O0", "-g1"] + ASAN + UBSAN, COV),
    "ub1":   ("clang", ["-O1", "-g1"] + ASAN + UBSAN, COV),
    "ub2":   ("clang", ["-O2", "-g1"] + ASAN + UBSAN, COV),
    "gub":   ("gcc", ["-O1", "-g1"] + ASAN + UBSAN, []),
    "gub2":  ("gcc", ["-O2", "-g1"] + ASAN + UBSAN, []),
    "msan":  ("clang", ["-O1", "-g1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"], COV),
    "tsan":  ("clang", ["-O1", "-g1", "-fsanitize=thread"], []),
    "tsan0": ("clang", ["-O0", "-g1", "-fsanitize=thread"], []),  # optimised builds keep some shared variables in registers
    "thr":   ("clang", ["-O2", "-g1"], []),
    "cost":  ("clang", ["-O0", "-g1", "-fno-omit-frame-pointer"], COV),  # X07: with function entry and exit hooks
    "cost2": ("clang", ["-O2", "-g1", "-fno-omit-frame-pointer"], COV),
}
MATRIX = {  # X04
    "clang-O0": ("clang", ["-O0"]), "clang-O1": ("clang", ["-O1"]), "clang-O2": ("clang", ["-O2"]), "clang-O3": ("clang", ["-O3"]),
    "clang-Os": ("clang", ["-Os"]), "gcc-O0": ("gcc", ["-O0"]), "gcc-O1": ("gcc", ["-O1"]), "gcc-O2": ("gcc", ["-O2"]),
    "gcc-O3": ("gcc", ["-O3"]), "gcc-Os": ("gcc", ["-Os"]),
    "gcc-O0-ndebug": ("gcc", ["-O0", "-DNDEBUG"]), "clang-O2-ndebug": ("clang", ["-O2", "-DNDEBUG"]),
    "gcc-O2-uchar": ("gcc", ["-O2", "-funsigned-char"]), "clang-O1-uchar": ("clang", ["-O1", "-funsigned-char"]),
    "gcc-O2-senum": ("gcc", ["-O2", "-fshort-enums"]), "clang-O1-senum": ("clang", ["-O1", "-fshort-enums"]),
    "gcc-O2-all": ("gcc", ["-O2", "-DNDEBUG", "-funsigned-char", "-fshort-enums"]),
}
MATRIX_MORE = {
    "clang-Oz": ("clang", ["-Oz"]), "gcc-Ofast-nofm": ("gcc", ["-O3", "-fno-fast-math", "-funroll-loops"]),
    "gcc-O2-lto": ("gcc", ["-O2", "-flto"]), "clang-O2-gnu2x": ("clang", ["-O2", "-std=gnu2x"]), "gcc-O1-gnu11": ("gcc", ["-O1", "-std=gnu11"]),
    "clang-O3-all": ("clang", ["-O3", "-DNDEBUG", "-funsigned-char", "-fshort-enums"]), "gcc-O3-uchar": ("gcc", ["-O3", "-funsigned-char"]),
    "gcc-O0-senum": ("gcc", ["-O0", "-fshort-enums"]), "gcc-Og": ("gcc", ["-Og"]), "clang-O2-init0": ("clang", ["-O2", "-ftrivial-auto-var-init=zero"]),
    "clang-O2-initpat": ("clang", ["-O2", "-ftrivial-auto-var-init=pattern"]), "gcc-O2-initpat": ("gcc", ["-O2", "-ftrivial-auto-var-init=pattern"]),
}
for _k, (_c, _f) in {**MATRIX, **MATRIX_MORE}.items():
    BUILDS["m:" + _k] = (_c, _f + ["-g0"], [])

# X06: programs with 32-bit long, size_t and pointers, on a small C library of their own (harness/m32); gcc never compiles the drivers
I32 = ["-D__thread=", "-D_Thread_local=", "-m32", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-pic", "-msse2", "-mfpmath=sse", "-I" + H + "/m32"]
I32_SYS = ["-idirafter", "/usr/include", "-idirafter", "/usr/include/x86_64-linux-gnu"]
MINUB = UBSAN + ["-fsanitize-minimal-runtime"]
for _k, (_c, _f) in {"ub0": ("clang", ["-O0"] + MINUB), "ub1": ("clang", ["-O1"] + MINUB), "ub2": ("clang", ["-O2"] + MINUB), "clang2": ("clang", ["-O2"]), "clang-s": ("clang", ["-Os"]),
                     "gcc0": ("gcc", ["-O0"]), "gcc1": ("gcc", ["-O1"]), "gcc2": ("gcc", ["-O2"]), "gcc3": ("gcc", ["-O3", "-fshort-enums"])}.items():
    BUILDS["i:" + _k] = (_c, _f + ["-g1"] + I32, [])

def D(**kw):
    return [f"-D{k}={v}" if v is not None else f"-D{k}" for k, v in kw.items()]

TS = [("", []), ("u8", D(GEL_CUSTOM_TIMESTAMP_TYPE="uint8_t")), ("u16", D(GEL_CUSTOM_TIMESTAMP_TYPE="uint16_t")), ("u32", D(GEL_CUSTOM_TIMESTAMP_TYPE="uint32_t"))]
SCHED = [("", []), ("e1", D(GEL_SCHEDULER_MAX_ENTRIES=1)), ("e7", D(GEL_SCHEDULER_MAX_ENTRIES=7)), ("e20", D(GEL_SCHEDULER_MAX_ENTRIES=20)),
         ("dyn", D(GEL_SCHEDULER_DYNAMIC_ENTRIES=None))]
WATCH = [("", []), ("malloc", D(GEL_MALLOC_AVAILABLE=1)), ("small", D(GEL_WATCHER_REDUCE_RAM_FOOTPRINT=None)), ("u16", D(GEL_CUSTOM_TIMESTAMP_TYPE="uint16_t"))]
PARAM = [("", []), ("s4", D(GEL_PARAMETER_MAX_SIZE=4)), ("s2", D(GEL_PARAMETER_MAX_SIZE=2)), ("s1", D(GEL_PARAMETER_MAX_SIZE=1)), ("ud", D(GEL_PARAMETER_USER_DATA="int"))]
PID = [("", []), ("w1", D(GEL_PID_INTEGRAL_HISTORY_SIZE=1, GEL_PID_DERIVATIVE_DELTA=1)), ("w2", D(GEL_PID_INTEGRAL_HISTORY_SIZE=2, GEL_PID_DERIVATIVE_DELTA=2)),
       ("w3", D(GEL_PID_INTEGRAL_HISTORY_SIZE=3, GEL_PID_DERIVATIVE_DELTA=7, MON_PID_CONTROL="long", MON_PID_OUTPUT="long")),
       ("f", D(MON_PID_CONTROL="float", MON_PID_OUTPUT="float")), ("d", D(GEL_PID_INTEGRAL_HISTORY_SIZE=40, GEL_PID_DERIVATIVE_DELTA=3, MON_PID_CONTROL="double", MON_PID_OUTPUT="double")),
       ("w300", D(GEL_PID_INTEGRAL_HISTORY_SIZE=300, GEL_PID_DERIVATIVE_DELTA=260))]
PMAN = [("", []), ("upd", D(GEL_PAGEMANAGER_UPDATE_CALLBACK=None)), ("ptr", D(PMAN_POINTERS=None)), ("ndebug", D(NDEBUG=None)),
        ("void", D(PMAN_VOID_VIEW=None, GEL_PAGEMANAGER_UPDATE_CALLBACK=None)),
        ("d2", D(PMAN_NAVIGATION_DEPTH=2)), ("d9", D(PMAN_NAVIGATION_DEPTH=9, GEL_PAGEMANAGER_UPDATE_CALLBACK=None, NDEBUG=None)),
        ("d300", D(PMAN_NAVIGATION_DEPTH=300))]
ONE = [("", [])]

# id: harness files, library modules, variants, quick cases per variant in (fast, asan), thorough factor
PROPS = {
    "C02": (["p_cbuf.c"], ["collections"], [("u8", ["-include", "elem12.h"] + D(GEL_CBUF_TYPE="uint8_t")), ("u16", ["-include", "elem12.h"] + D(GEL_CBUF_TYPE="uint16_t")),
             ("u64", ["-include", "elem12.h"] + D(GEL_CBUF_TYPE="uint64_t")), ("e12", ["-include", "elem12.h"] + D(GEL_CBUF_TYPE="mon_elem12_t"))]),
    "C04": (["p_queue.c", "inst_queue.c"], [], ONE),
    "C05": (["p_stack.c", "inst_stack.c"], [], ONE),
    "C06": (["p_list.c", "inst_list.c"], [], ONE),
    "L01": (["p_log.c"], ["circular_event_log"], ONE),
    "L02": (["p_log.c"], ["circular_event_log"], ONE),
    "W01": (["p_wl.c"], ["wearleveling"], ONE),
    "W02": (["p_wl.c"], ["wearleveling"], ONE),
    "W03": (["p_wl.c"], ["wearleveling"], ONE),
    "S01": (["p_ser.c", "inst_ser.c"], [], ONE),
    "S02": (["p_crc.c"], ["crc"], ONE),
    "S03": (["p_sched.c"], ["scheduler"], [("", []), ("dyn", D(GEL_SCHEDULER_DYNAMIC_ENTRIES=None))]),
    "H01": (["p_sched.c"], ["scheduler"], SCHED),
    "H02": (["p_sched.c"], ["scheduler"], SCHED),
    "H03": (["p_sched.c"], ["scheduler"], SCHED),
    "D01": (["p_debounce.c"], ["debounce"], ONE),
    "D02": (["p_debounce.c"], ["debounce"], ONE),
    "K01": (["p_keypad.c"], ["keypad", "timer"], TS),
    "K02": (["p_keypad.c"], ["keypad", "timer"], TS),
    "T01": (["p_time.c", "inst_time.c"], ["timer"], TS),
    "T02": (["p_time.c", "inst_time.c"], ["timer"], TS),
    "T03": (["p_time.c", "inst_time.c"], ["timer"], TS),
    "V01": (["p_watch.c"], ["data_structures", "timer"], WATCH),
    "V02": (["p_watch.c"], ["data_structures", "timer"], WATCH),
    "U01": (["p_su.c", "inst_su.c"], ["data_structures"], ONE),
    "U02": (["p_maybe.c", "inst_maybe.c"], [], ONE),
    "M01": (["p_sm.c", "inst_sm.c"], [], ONE),
    "G01": (["p_pid.c"], ["pid"], PID),
    "P01": (["p_param.c", "inst_param.c"], ["parameter"], PARAM),
    "P02": (["p_param.c", "inst_param.c"], ["parameter"], PARAM),
    "P03": (["p_param.c", "inst_param.c"], ["parameter"], PARAM),
    "P04": (["p_param.c", "inst_param.c"], ["parameter"], PARAM),
    "P05": (["p_param.c", "inst_param.c"], ["parameter"], PARAM),
    "N01": (["p_pman.c"], ["pagemanager"], PMAN),
    "N02": (["p_pman.c"], ["pagemanager"], PMAN),
}
# properties also run over more than 2^32 elements through one object (soak/p_soak.c): histories in the quick check
SOAK = {"C02": 1, "C04": 4, "L01": 1}
ALLFILES = sorted({f for p in PROPS.values() for f in p[0]})
ALLMODS = ["*"]
ALLCONF = [("", []),
           ("alt", D(GEL_MALLOC_AVAILABLE=1, GEL_PAGEMANAGER_UPDATE_CALLBACK=None, GEL_CUSTOM_TIMESTAMP_TYPE="uint16_t", PMAN_POINTERS=None,
                     GEL_SCHEDULER_MAX_ENTRIES=7, GEL_PARAMETER_MAX_SIZE=4, MON_PID_CONTROL="float", MON_PID_OUTPUT="float") + ["-include", "elem12.h", "-DGEL_CBUF_TYPE=mon_elem12_t"]),
           ("alt2", D(GEL_WATCHER_REDUCE_RAM_FOOTPRINT=None, GEL_CUSTOM_TIMESTAMP_TYPE="uint8_t", PMAN_NAVIGATION_DEPTH=2, PMAN_VOID_VIEW=None, GEL_PAGEMANAGER_UPDATE_CALLBACK=None, GEL_SCHEDULER_DYNAMIC_ENTRIES=None,
                      GEL_PARAMETER_MAX_SIZE=2, GEL_PID_INTEGRAL_HISTORY_SIZE=2, GEL_PID_DERIVATIVE_DELTA=1) + ["-include", "elem12.h", "-DGEL_CBUF_TYPE=uint16_t"])]
CTYPES = ["uint8_t", "uint16_t", "uint32_t", "mon_elem12_t"]

# quick number of cases per variant: (fast, asan); default scaled from measured rates (see DESIGN.md)
QUICK = json.load(open(os.path.join(VERIF, "quick_counts.json")))
THOROUGH = 100
SHARD_TIME = 800
RUN_TIME = {"quick": 360, "thorough": 700}  # seconds after the start of the check at which no new case is begun

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:symbolize=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78"
ENV["MSAN_OPTIONS"] = "exitcode=79"
ENV["TSAN_OPTIONS"] = "exitcode=66:report_signal_unsafe=0:history_size=4"
ENV["LC_ALL"] = "C"

class Inconclusive(Exception):
    pass

def sh(cmd, timeout=600, cpu=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, preexec_fn=lim, cwd="/")
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def libsources(mods):
    if "*" in mods:
        return sorted(glob.glob(REPO + "/gel/**/*.c", recursive=True))
    return sorted(f for m in mods for f in glob.glob(f"{REPO}/gel/{m}/**/*.c", recursive=True))

def literals(mods):
    """Integer literals of the code under test: cases draw some of their sizes and numbers from them (never a verdict)."""
    dirs = [REPO + "/gel"] if "*" in mods else [f"{REPO}/gel/{m}" for m in mods]
    found = {}
    for f in sorted(x for d in dirs for p in ("*.c", "*.h") for x in glob.glob(d + "/**/" + p, recursive=True)):
        t = open(f, encoding="latin-1").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/|\"(\\.|[^\"\\])*\"", " ", t, flags=re.S)
        num = r"\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b"
        t = re.sub(r"(?:" + num + r"\s*,\s*){8,}", " ", t)  # tables
        for m in re.findall(num, t):
            v = int(m, 16 if m[:2].lower() == "0x" else 8 if len(m) > 1 and m[0] == "0" and m.isdigit() and not re.search("[89]", m) else 10)
            if 16 < v < 1 << 64:
                found[v] = 1
    return ",".join(str(v) for v in sorted(found)[:400])

class Builder:
    """Executables of one check. Library sources and the files instantiating library macros ("inst_*") get the
    library-only flags and the malloc renames; the monitors do not."""
    def __init__(self, prop):
        self.dir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), f"{prop}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = ThreadPoolExecutor(CORES)
        self.warn = []
        self.services = prop == "X05"
        self.rename = RENAME + (OUTSIDE if self.services else [])
        self.hooks = [x for w in ("enter", "exit") for x in ("--redefine-sym", f"__cyg_profile_func_{w}=mon_cost_{w}")] if prop == "X07" else []
        self.rename = self.rename + self.hooks + [x for w in ("memset", "memcpy", "memmove", "memcmp") if self.hooks for x in ("--redefine-sym", f"{w}=mon_cost_{w}")]

    def compile_one(self, cc, flags, src, obj, rename):
        own = os.path.basename(src) in ("mon.c", "cost.c")
        if self.hooks and not own:
            flags = flags + ["-finstrument-functions-after-inlining"]
        elif self.hooks:
            flags = ["-O2"] + [x for x in flags if x != "-O0"] + ["-D_GNU_SOURCE"]
        rc, out, err = sh([cc, "-w"] + flags + INC + (I32_SYS if "-m32" in flags else []) + ["-c", src, "-o", obj])
        if rc == 0 and rename:
            rc, out, err = sh(["objcopy"] + self.rename + [obj])
        elif rc == 0 and self.hooks and not own:
            rc, out, err = sh(["objcopy"] + [x.replace("mon_cost", "mon_drv") for x in self.hooks] + [obj])
        return rc, err, src

    def start(self, name, build, files, mods, vflags, extra_lib=None, harness_flags=None):
        cc, common, libf = BUILDS[build]
        d = os.path.join(self.dir, re.sub(r"[^A-Za-z0-9_.-]", "_", name))
        os.makedirs(d, exist_ok=True)
        jobs = []
        small = "-m32" in common
        for src in ["mon.c"] + files + (["m32/libc32.c"] if small else []):
            inst = os.path.basename(src).startswith("inst_")
            fl = common + vflags + (libf if inst else [])
            if src == "m32/libc32.c":
                fl = I32 + ["-O1", "-ffreestanding", "-fno-builtin", "-w"]
            elif small and cc == "gcc" and not inst:
                fl = ["-O1", "-g1"] + I32 + vflags + [x for x in common if x == "-fshort-enums"]
            jobs.append(("gcc" if src == "m32/libc32.c" else "clang" if small and not inst else cc, fl, os.path.join(H, src), os.path.join(d, src.replace("/", "_") + ".o"),
                         inst or (self.services and src != "mon.c")))  # X05: header-only code lives in the drivers' objects too
        lib = []
        for s in libsources(mods):
            o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            lib.append((cc, common + vflags + libf + (extra_lib or []), s, o, True))
        return dict(name=name, d=d, cc=cc, common=common, vflags=vflags, libf=libf + (extra_lib or []), mods=mods, jobs=jobs + lib,
                    futs=[self.pool.submit(self.compile_one, *j) for j in jobs + lib])

    def finish(self, b):
        for f in b["futs"]:
            rc, err, src = f.result()
            if rc != 0:
                self.warn.append(f"{b['name']}: {src} does not compile: {err[:1500]}")
                return None
        exe = os.path.join(b["d"], "t")
        link = [b["cc"]] + [x for x in b["common"] if not x.startswith("-D")]
        libs = ["-lpthread", "-lm"] + (["-rdynamic", "-Wl,-z,now"] if self.hooks else [])
        if "-m32" in b["common"]:
            link = ["gcc", "-m32", "-nostdlib", "-static", "-no-pie"]
            libs = glob.glob("/usr/lib/llvm-18/lib/clang/*/lib/linux/libclang_rt.builtins-i386.a")
        objs = [j[3] for j in b["jobs"]]
        rc, _, err = sh(link + objs + libs + ["-o", exe])
        if rc != 0 and "*" not in b["mods"]:  # a module that leans on another one: take them all
            for s in libsources(["*"]):
                o = os.path.join(b["d"], "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
                if o not in objs and self.compile_one(b["cc"], b["common"] + b["vflags"] + b["libf"], s, o, True)[0] == 0:
                    objs.append(o)
            rc, _, err = sh(link + objs + libs + ["-o", exe])
        if rc != 0:
            self.warn.append(f"{b['name']}: does not link: {err[:1500]}")
            return None
        for o in objs:
            os.unlink(o)
        return exe

# ---------------------------------------------------------------- running one shard
SAN = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*|AddressSanitizer:DEADLYSIGNAL|WARNING: ThreadSanitizer: [^\n]*)")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")

def crash_key(rc, err, exe=None):
    m = re.search(r"(?:@@CRASH|runtime error:).* at ([0-9a-f]+)$", err, re.M)
    if m and exe:  # a 32-bit program says where itself
        f, l = (sh(["addr2line", "-f", "-e", exe, m.group(1)])[1].split("\n") + ["", ""])[:2]
        err = err.replace(m.group(0), re.sub(r" at [0-9a-f]+$", "", m.group(0))) + f"\n    #0 0x{m.group(1)} in {f} {l}\n"
    m = SAN.search(err)
    what = m.group(1) if m else (f"signal {-rc}" if isinstance(rc, int) and rc < 0 else f"exit {rc}")
    what = re.sub(r"0x[0-9a-f]+|\bpc\b.*|on address.*", "", what)
    what = re.sub(r"-?\d+", "N", what)
    where = ""
    for f, loc in FRAME.findall(err):
        if REPO in loc or "/inst_" in loc:
            where = os.path.basename(loc.split(":")[0]) + ":" + f
            break
    if not where:
        m2 = re.search(r"(\S+?):\d+:\d+: runtime error", err)
        if m2:
            where = os.path.basename(m2.group(1))
    kind = "undefined-behaviour" if "runtime error" in err else "uninitialised-read" if "MemorySanitizer" in err else "assertion" if "Assertion" in err else "crash"
    return f"{kind}:{what.strip()[:80]}@{where}", kind

def shard(exe, args, sub, crumb, hang_ok=True):
    """Runs cases sub=(from, to, stride), going on behind cases that kill the process. Returns a dict of observations."""
    res = dict(viol=[], stats={}, digests=[], notes=[], outs=[])
    frm, to, stride = sub
    crashes = 0
    while frm < to:
        for p in (crumb,):
            if os.path.exists(p):
                os.unlink(p)
        sets = f"{crumb}.{crashes}"
        cmd = [exe] + args + ["--from", str(frm), "--to", str(to), "--stride", str(stride), "--crumb", crumb, "--sets", sets]
        rc, out, err = sh(cmd, timeout=SHARD_TIME)
        cur = None
        for ln in out.split("\n"):
            if ln.startswith("@@V "):
                pid, case, key, msg = (ln[4:].split("\t") + ["", "", ""])[:4]
                cur = dict(prop=pid, case=int(case), key=key, msg=msg, trace=[], exe=exe, args=args)
                res["viol"].append(cur)
            elif ln.startswith("@@T ") and cur is not None:
                cur["trace"].append(ln[4:])
            elif ln.startswith("@@E"):
                cur = None
            elif ln.startswith("@@D "):
                res["digests"].append(tuple(ln[4:].split(" ")))
            elif ln.startswith("@@S "):
                k, v = ln[4:].split(" ")
                res["stats"][k] = max(res["stats"].get(k, 0), int(v)) if k.startswith("max_") else res["stats"].get(k, 0) + int(v)
        if "WARNING: ThreadSanitizer: data race" in err and "threads" in args:
            at = []  # accesses made by the library itself (or by memcpy and the like on its behalf), not by a monitor it called
            for blk in re.split(r"\n\s*\n", err):
                if re.search(r"(?i)\b(write|read) of size", blk):
                    own = [(f, l) for f, l in re.findall(r"#\d+ (\S+) (\S+)", blk) if l.startswith("/")][:1]
                    at += [f"{os.path.basename(l.split(':')[0])}:{f}" for f, l in own if l.startswith(REPO) or "/inst_" in l]
            if at:  # a race inside the library
                res["viol"].append(dict(prop="X03", case=0, key="data race:" + at[0], kind="race", msg=f"threads using only their own objects race in {at[0]}",
                                        trace=["$ " + " ".join(cmd)] + err.splitlines()[:60], exe=exe, args=args))
                if "@@DONE" in out:
                    res["outs"].append(sets)
                    break
        if rc == 0 and "@@DONE" in out:
            res["outs"].append(sets)
            break
        try:
            c, drv = struct.unpack("QQ", open(crumb, "rb").read(16))
        except Exception:
            c = drv = 0
        if not c:
            res["notes"].append(f"{' '.join(cmd)} ended with {rc} outside any case: {err[-800:]}")
            break
        case = c - 1
        names = [l.split("\t")[0] for l in sh([exe, "--list"])[1].splitlines()]
        did = names[drv] if drv < len(names) else "?"
        if rc == 98 and "@@HANG" in err:
            res["viol"].append(dict(prop=did, case=case, key="hang", kind="hang", msg="the case used its whole allowance of processor time: a call does not terminate",
                                    trace=["$ " + " ".join(cmd)], exe=exe, args=args))
            res["digests"].append((did, str(case), "hang", "2"))
            break
        one = [exe] + (args if "--prop" in args or "--mode" in args else args + ["--prop", did]) + ["--from", str(case), "--to", str(case + 1), "--stride", "1"]
        rc2, out2, err2 = sh(one, timeout=300, cpu=30)
        if rc2 == 0 and "@@DONE" in out2:
            res["notes"].append(f"case {case} of {did} ended the process ({rc}) but not when run alone: {err[-600:]}")
            rep = cmd[:]
            rc2, err2 = (rc, err)
            solid = isinstance(rc, int) and sh(cmd, timeout=SHARD_TIME)[0] == rc
        else:
            rep, solid = one, True
        if solid and (rc2 == "timeout" or rc2 in (-24, -9)):
            k, kind = "hang", "hang"
        else:
            k, kind = crash_key(rc2, err2, exe)
        if solid:
            res["viol"].append(dict(prop=did, case=case, key=k, kind=kind, msg=(err2.strip().split("\n") or [""])[0][:300], trace=["$ " + " ".join(rep)] + err2.splitlines()[:60], exe=exe, args=args))
            res["digests"].append((did, str(case), "crash", "2"))
        crashes += 1
        if crashes >= 3:
            res["notes"].append(f"gave up on {exe} after {crashes} crashes")
            break
        if "--prop" in args or "--mode" in args:
            frm = case + stride
        else:  # several drivers per process: the rest is run driver by driver
            for nm in names[drv:]:
                sub2 = (case + stride if nm == did else sub[0], to, stride)
                r2 = shard(exe, args + ["--prop", nm], sub2, crumb + "." + nm)
                for f in ("viol", "digests", "notes", "outs"):
                    res[f] += r2[f]
                for kk, v in r2["stats"].items():
                    res["stats"][kk] = max(res["stats"].get(kk, 0), v) if kk.startswith("max_") else res["stats"].get(kk, 0) + v
            break
    return res

def union(paths, ext):
    seen = set()
    for p in paths:
        try:
            b = open(p + ext, "rb").read()
        except OSError:
            continue
        seen.update(struct.unpack(f"{len(b) // 8}Q", b))
    return seen

def edges(groups):
    hit = tot = 0
    for g in groups:
        acc = b""
        for p in g:
            try:
                b = open(p + ".ed", "rb").read()
            except OSError:
                continue
            acc = bytes(x | y for x, y in zip(acc, b)) if acc else b
        hit, tot = hit + sum(acc), tot + len(acc)
    return hit, tot

class Check:
    def __init__(self, prop, tier, seed):
        ENV["MON_DICT"] = literals(PROPS[prop][1] if prop in PROPS else ["collections"] if prop in ("C01", "C03") else ["*"])
        self.prop, self.tier, self.seed = prop, tier, seed
        self.b = Builder(prop)
        self.t0 = time.time()
        self.viol, self.notes, self.stats, self.outs = [], [], {}, {}
        self.digests = {}
        self.extra = {}
        self.samples = []
        self.rules = []
        self.mul = 1 if tier == "quick" else THOROUGH
        self.assume = []

    def run_jobs(self, jobs):
        """jobs: (group, exe, args, ncases, shards). Groups share edge maps and digests."""
        todo = []
        for gi, (group, exe, args, n, k) in enumerate(jobs):
            k = max(1, min(k, n))
            for s in range(k):
                a = list(args)
                if "--fill" not in a:
                    a += ["--fill", str([0, 0, 0, 0, 1, 2, 3, 0][s % 8])]
                todo.append((s, group, exe, a + ["--seed", str(self.seed)] + ["--until", str(int(self.t0 + RUN_TIME[self.tier]))] + (["--thorough"] if self.tier != "quick" else []), (s, n, k), os.path.join(self.b.dir, f"c{gi}_{s}")))
        todo.sort(key=lambda t: t[0])  # every group gets its turn before any gets its second
        with ThreadPoolExecutor(CORES) as ex:
            futs = [(t[1], ex.submit(shard, *t[2:])) for t in todo]
            for g, f in futs:
                r = f.result()
                for v in r["viol"]:
                    v["group"] = g
                self.viol += r["viol"]
                self.notes += r["notes"]
                for k, v in r["stats"].items():
                    self.stats[k] = max(self.stats.get(k, 0), v) if k.startswith("max_") else self.stats.get(k, 0) + v
                self.outs.setdefault(g, []).extend(r["outs"])
                if r["digests"]:
                    dd = self.digests.setdefault(g, {})
                    for d in r["digests"]:
                        dd[(d[0], d[1])] = (d[2], d[3])

    def build_all(self, specs):
        """specs: (name, build, files, mods, vflags, extra_lib) -> {name: exe}"""
        bs = [(s[0], self.b.start(*s)) for s in specs]
        exes = {}
        for n, b in bs:
            e = self.b.finish(b)
            if e:
                exes[n] = e
        if not exes:
            raise Inconclusive("nothing could be built:\n" + "\n".join(self.b.warn))
        return exes

    def sample(self, exe, args, cases):
        for c in cases:
            rc, out, _ = sh([exe] + args + ["--mode", "trace", "--seed", str(self.seed), "--from", str(c)], timeout=60, cpu=30)
            tr = [l[4:] for l in out.splitlines() if l.startswith("@@T ")]
            if tr:
                self.samples.append({"case": f"{' '.join(args)} seed {self.seed} case {c}", "trace": tr[:40] + ([f"... ({len(tr) - 40} more)"] if len(tr) > 40 else [])})

    def rule(self, exe, ids):
        for l in sh([exe, "--list"])[1].splitlines():
            i, r = l.split("\t", 1)
            if i in ids:
                self.rules.append(r if len(ids) == 1 else f"{i}: {r}")

    # ---------------------------------------------------------------- kinds of checks
    def behaviour(self):
        files, mods, variants = PROPS[self.prop]
        nf, na = QUICK.get(self.prop, [2000, 400])
        specs = [(f"{v or 'default'}.{bl}", bl, files, mods, vf) for v, vf in variants for bl in ("fast", "asan")]
        if self.prop in SOAK:
            specs.append(("soak.thr", "thr", ["soak/p_soak.c", "soak/inst_soak.c"], ["collections", "circular_event_log"], []))
        exes = self.build_all(specs)
        jobs = []
        if "soak.thr" in exes:
            k = SOAK[self.prop] * (1 if self.tier == "quick" else 2)
            jobs.append(("soak.thr", exes["soak.thr"], ["--prop", self.prop + "S", "--variant", "soak", "--wd", "300"], k, k))
        for (name, bl, *_), in zip(specs):
            if name in exes and name != "soak.thr":
                v = name.rsplit(".", 1)[0]
                n = (nf if bl == "fast" else na) * self.mul
                jobs.append((name, exes[name], ["--prop", self.prop, "--variant", v], n, 8 if len(variants) < 3 else 4 if self.tier == "quick" else 8))
        self.run_jobs(jobs)
        n0 = specs[0][0] if specs[0][0] in exes else list(exes)[0]
        self.sample(exes[n0], ["--prop", self.prop, "--variant", n0.rsplit(".", 1)[0]], [0, 1])
        self.rule(exes[n0], [self.prop])
        self.extra["builds"] = sorted(exes)
        self.nt_groups = [j[0] for j in jobs]

    def cbuf_conc(self):
        opts = ["0", "1", "2"] if self.tier != "quick" else ["1", "2"]
        types = CTYPES
        coop = lambda t: ["-include", "elem12.h", f"-DGEL_CBUF_TYPE={t}"]
        specs = []
        for t in types:
            for o in opts + (["0"] if t == "uint8_t" and "0" not in opts else []):
                BUILDS["coop" + o] = ("clang", ["-g1", "-O1"], ["-O" + o, "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"])
                specs.append((f"coop-{t}-O{o}", "coop" + o, ["conc/p_conc.c", "conc/conc_rt.c"], ["collections"], coop(t)))
        for t in types if self.tier != "quick" else ["uint8_t", "mon_elem12_t"]:
            bl = "thr" if self.prop == "C01" else "tsan"
            specs.append((f"{bl}-{t}", bl, ["conc/p_thr.c"], ["collections"], coop(t)))
        exes = self.build_all(specs)
        n, nt = QUICK.get(self.prop, [20000, 200])
        jobs = []
        for name, exe in exes.items():
            if name.startswith("coop"):
                jobs.append((name, exe, ["--prop", self.prop, "--variant", name], n * self.mul, 4))
            else:
                jobs.append((name, exe, ["--prop", self.prop, "--variant", name, "--wd", "100", "--for", "30" if self.tier == "quick" else "300"], nt * self.mul, 2))
        self.run_jobs(jobs)
        first = specs[0][0] if specs[0][0] in exes else list(exes)[0]
        self.sample(exes[first], ["--prop", self.prop, "--variant", first], [0, 1])
        self.rule(exes[first], [self.prop])
        self.extra["builds"] = sorted(exes)
        self.nt_groups = [j[0] for j in jobs]

    def x01(self):
        bl = ["ub0", "ub1", "ub2", "gub"] + (["gub2"] if self.tier != "quick" else [])
        specs = [(f"{v or 'default'}.{b}", b, ALLFILES, ALLMODS, vf) for i, (v, vf) in enumerate(ALLCONF) for b in (bl if self.tier != "quick" else [bl[0], bl[3]] if i == 0 else [bl[i]])]
        exes = self.build_all(specs)
        n = QUICK["X01"][0]
        jobs = [(nm, e, ["--ignore", "--variant", nm], n * self.mul, 8) for nm, e in exes.items()]
        self.run_jobs(jobs)
        self.keep(lambda v: v.get("kind") in ("crash", "undefined-behaviour", "uninitialised-read"))
        self.finish_all(exes, jobs)

    def keep(self, f):
        """Only violations of this check's own kind; the drivers' own properties judge the rest."""
        drop = [v for v in self.viol if not f(v)]
        self.viol = [v for v in self.viol if f(v)]
        if drop:
            self.notes.append(f"{len(drop)} observations belong to other properties: " + ", ".join(sorted({v['prop'] + ':' + v['key'] for v in drop})[:10]))

    def finish_all(self, exes, jobs):
        e = list(exes)[0]
        self.rules.append("every driver of the other properties (one case each per number), over the listed builds; a case is non-trivial by its own driver's rule")
        names = [l.split("\t")[0] for l in sh([exes[e], "--list"])[1].splitlines()]
        self.extra["drivers"] = names
        for d in (names[self.seed % len(names)], names[(self.seed * 7 + 3) % len(names)]):
            self.sample(exes[e], ["--prop", d, "--variant", e], [0])
        self.extra["builds"] = sorted(exes)
        self.nt_groups = [j[0] for j in jobs]

    def compare(self, ref, others, what, conf):
        n = 0
        R = self.digests.get(ref, {})
        seen = set()
        for o in others:
            O = self.digests.get(o, {})
            for k in sorted(set(R) & set(O)):
                n += 1
                if R[k][0] != O[k][0] and (k[0], o) not in seen:
                    seen.add((k[0], o))
                    self.viol.append(dict(prop=k[0], case=int(k[1]), key=f"{what}:{k[0]}:{o}", msg=f"case {k[1]} of driver {k[0]}: results in {o} differ from those in {ref}",
                                          trace=[f"digest in {ref}: {R[k]}", f"digest in {o}: {O[k]}"], exe="", args=[], group=conf, mine=1))
        return n

    def x02(self):
        confs = ALLCONF if self.tier != "quick" else ALLCONF[:2]
        specs = [(f"{v or 'default'}.{b}", b, ALLFILES, ALLMODS, vf) for v, vf in confs for b in ("msan", "fast")]
        exes = self.build_all(specs)
        n, nd = QUICK["X02"]
        jobs = []
        for nm, e in exes.items():
            v = nm.rsplit(".", 1)[0]
            if nm.endswith(".msan"):
                jobs.append((nm, e, ["--ignore", "--variant", v, "--fill", "4"], n * self.mul, 8))
            else:
                for f in range(4):
                    jobs.append((f"{nm}.fill{f}", e, ["--ignore", "--variant", v, "--digests", "--fill", str(f)], nd * self.mul, 4))
        self.run_jobs(jobs)
        self.keep(lambda v: v.get("kind") == "uninitialised-read")
        cmp = sum(self.compare(f"{v or 'default'}.fast.fill1", [f"{v or 'default'}.fast.fill{k}" for k in (0, 2, 3)], "memory-content", v) for v, _ in confs)
        self.extra["digests_compared"] = cmp
        self.finish_all(exes, jobs)

    def x03(self):
        confs = ALLCONF if self.tier != "quick" else ALLCONF[:1]
        specs = [(f"{v or 'default'}.{b}", b, ALLFILES, ALLMODS, vf) for v, vf in confs for b in ("fast", "tsan0")]
        exes = self.build_all(specs)
        ni, nt = QUICK["X03"]
        jobs = []
        for nm, e in exes.items():
            v = nm.rsplit(".", 1)[0]
            if nm.endswith(".fast"):
                jobs.append((nm, e, ["--mode", "inter", "--group", "6", "--variant", v], ni * self.mul, 8))
            else:
                jobs.append((nm, e, ["--mode", "threads", "--group", "4", "--variant", v], nt * self.mul, 4))
        self.run_jobs(jobs)
        self.keep(lambda v: v["prop"] == "X03" or "data race" in v["key"])
        self.finish_all(exes, jobs)

    def x04(self):
        m = dict(MATRIX)
        if self.tier != "quick":
            m.update(MATRIX_MORE)
        confs = ALLCONF if self.tier != "quick" else ALLCONF[:2]
        specs = [(f"{v or 'default'}.{k}", "m:" + k, ALLFILES, ALLMODS, vf) for i, (v, vf) in enumerate(confs) for k in m
                 if self.tier != "quick" or i == 0 or k in ("clang-O1", "gcc-O0-ndebug", "gcc-O2-all", "gcc-O2")]
        exes = self.build_all(specs)
        n = QUICK["X04"][0]
        jobs = [(nm, e, ["--ignore", "--digests", "--variant", nm.split(".")[0], "--fill", "0"], n * self.mul, 2) for nm, e in exes.items()]
        self.run_jobs(jobs)
        self.keep(lambda v: False)
        cmp = 0
        for v, _ in confs:
            names = [j[0] for j in jobs if j[0].split(".")[0] == (v or "default")]
            if len(names) > 1:
                ref = f"{v or 'default'}.clang-O1" if f"{v or 'default'}.clang-O1" in names else names[0]
                cmp += self.compare(ref, [x for x in names if x != ref], "build-dependent", v)
        self.extra["digests_compared"] = cmp
        self.finish_all(exes, jobs)

    def x05(self):
        confs = ALLCONF
        bl = ["fast0"] if self.tier == "quick" else ["fast0", "fast", "m:gcc-O0", "m:gcc-O2-all"]  # optimisers remove needless allocations
        specs = [(f"{v or 'default'}.{b}", b, ALLFILES, ALLMODS, vf) for v, vf in confs for b in bl]
        exes = self.build_all(specs)
        n = QUICK["X05"][0]
        jobs = [(nm, e, ["--services", "--variant", nm.split(".")[0]], n * self.mul, 8) for nm, e in exes.items()]
        self.run_jobs(jobs)
        self.keep(lambda v: v["key"].startswith("service:"))
        self.extra["services_watched"] = sorted(OUTSIDE[1::2])
        self.finish_all(exes, jobs)

    def x06(self):
        plan = [("ub0", 0), ("gcc2", 0), ("ub1", 1), ("gcc1", 2), ("clang2", 2)]
        if self.tier != "quick":
            plan = [(k[2:], i) for k in BUILDS if k.startswith("i:") for i in range(len(ALLCONF))]
        spec = lambda k, b, i: (f"{ALLCONF[i][0] or 'default'}.{k}", b, ALLFILES, ALLMODS, ALLCONF[i][1])
        exes, why = {}, ""
        try:
            exes = self.build_all([spec("i-" + k, "i:" + k, i) for k, i in plan])
        except Inconclusive as e:
            why = f"32-bit programs cannot be built here: {str(e)[:600]}"
        for nm, e in list(exes.items()):
            if not sh([e, "--list"])[1]:
                why = f"32-bit programs do not run here ({nm})"
                del exes[nm]
        if not exes:
            self.notes.append(why + "; the drivers ran as 64-bit programs instead")
            exes = self.build_all([spec(k, k, i) for k, i in (("ub0", 0), ("fast", 1))])
        n = QUICK["X06"][0]
        jobs = [(nm, e, ["--variant", nm.split(".")[0]], n * self.mul, 8) for nm, e in exes.items()]
        self.run_jobs(jobs)
        self.extra["programs"] = "64-bit" if why and not any(".i-" in x for x in exes) else "32-bit (i386): int, long, size_t and pointers of 32 bits"
        self.finish_all(exes, jobs)

    def x07(self):
        bl = ["cost"] if self.tier == "quick" else ["cost", "cost2"]
        exes = self.build_all([(f"{v or 'default'}.{b}", b, ALLFILES + ["cost.c"], ALLMODS, vf) for v, vf in ALLCONF for b in bl])
        n = QUICK["X07"][0]
        jobs = [(nm, e, ["--cost", "--variant", nm.split(".")[0]], n * self.mul, 8) for nm, e in exes.items()]
        self.run_jobs(jobs)
        self.keep(lambda v: v["key"].startswith("cost:"))
        self.finish_all(exes, jobs)

    def x09(self):
        self.x08("X09", "p_refuse.c", ["fast0"], ["fast0", "fast", "asan"])

    def x08(self, ID="X08", source="p_ro.c", quick=("fast0", "fast"), thorough=("fast0", "fast", "m:gcc-O0", "m:gcc-O2")):
        bl = list(quick if self.tier == "quick" else thorough)
        files = [source] + [f for f in ALLFILES if f.startswith("inst_")]
        specs = [(f"{v or 'default'}.{b}", b, files, ALLMODS, vf) for v, vf in ALLCONF for b in bl]
        exes = self.build_all(specs)
        n = QUICK[ID][0]
        jobs = [(nm, e, ["--prop", ID, "--variant", nm.split(".")[0]], n * self.mul, 8) for nm, e in exes.items()]
        self.run_jobs(jobs)
        n0 = specs[0][0] if specs[0][0] in exes else list(exes)[0]
        self.sample(exes[n0], ["--prop", ID, "--variant", n0.split(".")[0]], [0, 1])
        self.rule(exes[n0], [ID])
        self.extra["builds"] = sorted(exes)
        self.nt_groups = [j[0] for j in jobs]

    # ---------------------------------------------------------------- verdict
    def known(self):
        out = []
        try:
            for l in open(os.path.join(VERIF, "known_findings.txt")):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        except OSError:
            pass
        return out

    def run(self):
        kind = {"C01": self.cbuf_conc, "C03": self.cbuf_conc, "X01": self.x01, "X02": self.x02, "X03": self.x03, "X04": self.x04, "X05": self.x05, "X06": self.x06, "X07": self.x07, "X08": self.x08, "X09": self.x09}.get(self.prop, self.behaviour)
        kind()
        ev = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(ev, exist_ok=True)
        nt, st = set(), set()
        for g in self.outs:
            nt |= {(x) for x in union(self.outs[g], ".nt")}
            st |= union(self.outs[g], ".st")
        eh, et = edges(self.outs.values())
        known = self.known()
        bykey, replays, knownhit = {}, [], []
        for v in self.viol:
            bykey.setdefault(v["key"], []).append(v)
        fresh = []
        for k, vs in sorted(bykey.items()):
            kn = [d for (kk, d) in known if kk == k]
            if kn:
                knownhit.append(f"KNOWN-FINDING: property={self.prop} {kn[0]}")
            else:
                fresh.append((k, vs))
        for f in glob.glob(os.path.join(ev, f"{self.prop}-replay-*.txt")):
            os.unlink(f)
        for i, (k, vs) in enumerate(fresh[:8]):
            p = os.path.join(ev, f"{self.prop}-replay-{i}.txt")
            v = vs[0]
            with open(p, "w") as f:
                f.write(f"property {self.prop}\nkey {k}\nmessage {v['msg']}\nobserved in {len(vs)} shard(s), first: {v.get('group')}\n"
                        f"replay: python3 {VERIF}/run.py {self.prop} --tier {self.tier} --seed {self.seed}   (driver {v['prop']}, case {v['case']}, arguments {' '.join(v['args'])})\n\n")
                f.write("\n".join(v["trace"]) + "\n")
            replays.append((k, v, p))
        cov = dict(evaluations=self.stats.get("evals", 0), distinct_nontrivial=len(nt), rule=" | ".join(self.rules), samples=self.samples,
                   states=len(st), checked_observations=self.stats.get("events", 0), api_calls=self.stats.get("calls", 0),
                   library_edges_covered=eh, library_edges_total=et)
        for k, v in self.stats.items():
            if k not in ("evals", "events", "calls", "edges", "edges_total", "violations"):
                cov[k] = v
        cov.update(self.extra)
        if self.notes or self.b.warn:
            cov["notes"] = [x[:1000] for x in self.notes + self.b.warn]
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                       assumptions=["sandbox compilers and sanitizer runtimes; the reference model in harness/ is the reading of the property",
                                    "x86-64 host" + (" running i386 programs" if self.prop == "X06" else "") + "; cases are sampled, not exhausted"] + self.assume,
                       wall_s=round(time.time() - self.t0, 2), violations=len(fresh)), open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for l in knownhit:
            print(l)
        print(f"{self.prop} {self.tier}: {cov['evaluations']} cases ({len(nt)} distinct non-trivial), {cov['checked_observations']} observations checked, "
              f"{eh}/{et} library edges, {time.time() - self.t0:.1f} s")
        for w in self.b.warn + self.notes:
            print("note:", w[:600])
        for k, v, p in replays:
            print(f"VIOLATION property={self.prop} replay={p}")
            print(f"  {k}: {v['msg']}")
        os.environ.get("VERIF_KEEP") or shutil.rmtree(self.b.dir, ignore_errors=True)
        if fresh:
            return 1
        if not nt and not self.stats.get("evals"):
            print("INCONCLUSIVE: nothing was observed")
            return 2
        return 0

def main():
    a = sys.argv[1:]
    prop, tier, seed = None, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        else: prop = x
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not (prop in PROPS or prop in ("C01", "C03", "X01", "X02", "X03", "X04", "X05", "X06", "X07", "X08", "X09")):
        print("usage: run.py <property id> [--tier quick|thorough] [--seed N]")
        return 2
    try:
        return Check(prop, tier, seed).run()
    except Inconclusive as e:
        print("INCONCLUSIVE:", e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
