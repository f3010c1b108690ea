"""Helpers of the demonstrations; run with the repository as working directory."""
import os, subprocess, sys, tempfile

REPO = os.getcwd()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
ENV.pop("RUST_LOG", None)


def build(*bins, release=False):
    cmd = ["cargo", "build", "-q", "--offline"] + (["--release"] if release else [])
    for b in bins:
        cmd += ["--bin", b]
    subprocess.run(cmd, cwd=REPO, env=ENV, check=True, stdin=subprocess.DEVNULL)


def exe(name, release=False):
    return os.path.join(REPO, "target", "release" if release else "debug", name)


def run(name, args=(), data=b"", release=False, timeout=120, **kw):
    """exit status and standard output"""
    r = subprocess.run([exe(name, release), *map(str, args)], input=data, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, env=ENV, timeout=timeout, **kw)
    return r.returncode, r.stdout


def lib(main_rs, timeout=280):
    """compiles and runs a program that uses the library; its exit status"""
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, "src"))
        with open(os.path.join(d, "src", "main.rs"), "w") as f:
            f.write(main_rs)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                    '[dependencies]\nstringology = { path = "%s" }\n' % REPO)
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            with open(lock) as f, open(os.path.join(d, "Cargo.lock"), "w") as g:
                g.write(f.read())
        subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", os.path.join(d, "t")],
                       cwd=d, env=ENV, check=True, stdin=subprocess.DEVNULL)
        r = subprocess.run([os.path.join(d, "t", "debug", "demo")], cwd=d, stdin=subprocess.DEVNULL, timeout=timeout)
        return r.returncode


def check(ok, what):
    if not ok:
        print("FAILS:", what)
        sys.exit(1)
