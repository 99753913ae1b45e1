"""Builds the library's extension with sanitizers, and the layer between it and libcrypto."""
import os, re, subprocess

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native_src", "shim.c")

def lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True, check=True).stdout.strip()

def prepare(run, d, tier):
    """Variant under AddressSanitizer: extension and shim are instrumented."""
    old = os.environ.get("CFLAGS")
    os.environ["CFLAGS"] = "-fsanitize=address,undefined -fno-omit-frame-pointer -g -O1"
    try:
        run.stage_copy(d, True)
    finally:
        if old is None:
            del os.environ["CFLAGS"]
        else:
            os.environ["CFLAGS"] = old
    subprocess.run(["gcc", "-shared", "-fPIC", "-g", "-O1", "-fsanitize=address", "-o", os.path.join(d, "libshim.so"), SRC, "-lcrypto", "-ldl", "-lpthread"], check=True)

def env(d):
    return dict(LD_PRELOAD=lib("libasan.so") + " " + os.path.join(d, "libshim.so"), VERIF_SHIM=os.path.join(d, "libshim.so"), PYTHONMALLOC="malloc", PYCRYPTODOME_DISABLE_DEEPBIND="1",
                ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1:handle_abort=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=67:print_stacktrace=1")

def scan(job, log):
    """What memcheck says about calls from the library's extension."""
    if job["variant"] != "memcheck":
        return
    seen = set()
    for block in re.split(r"\n==\d+== *\n", "\n" + log):
        lines = [re.sub(r"^==\d+== ?", "", l) for l in block.splitlines() if l.startswith("==")]
        text = "\n".join(lines)
        if not re.match(r"(Invalid|Use of uninit|Conditional jump|Syscall param|Source and dest|Mismatched|Process terminating)", text):
            continue
        if not text.startswith(("Invalid", "Source", "Mism", "Process")) and not re.search(r"_cffi_f_|EVP_|bcmp|memcmp", text):
            continue    # bytes that Python handles, but that need not be part of a result
        key = "memcheck:" + lines[0].split(" of ")[0].replace(" ", "-")
        if key in seen:
            continue
        seen.add(key)
        yield key, text[:3000]
