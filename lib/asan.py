"""Replays a memory-safety counterexample: the real kernel is compiled by parcels with AddressSanitizer
added to the compiler flags and run in a subprocess."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(modname, inputs, timeout=90):
    """executes modname.execute(inputs) under ASan -> first report line or None"""
    from .runner import jsonable
    lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(dict(module=modname, inputs=jsonable(inputs)), f, default=str)
    env = dict(os.environ, LD_PRELOAD=lib, PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0')
    try:
        p = subprocess.run([sys.executable, '-m', 'lib.asan', f.name], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'no result within %d s (hang)' % timeout
    finally:
        os.unlink(f.name)
    for ln in p.stdout.splitlines():
        if 'ERROR: AddressSanitizer' in ln:
            return ln.strip()
    if p.returncode < 0:
        return 'killed by signal %d' % -p.returncode
    return None


def main(path):
    from . import env  # noqa
    from .runner import unjson
    import importlib
    from parcels.compilation import codecompiler as cc
    orig = cc.CCompiler._create_compile_process_

    def patched(self, cmd, src, log):
        cmd = list(cmd)
        cmd = [cmd[0], '-fsanitize=address', '-g'] + cmd[1:]
        e = os.environ.pop('LD_PRELOAD', None)
        try:
            return orig(self, cmd, src, log)
        finally:
            if e:
                os.environ['LD_PRELOAD'] = e
    cc.CCompiler._create_compile_process_ = patched
    d = json.load(open(path))
    mod = importlib.import_module(d['module'])
    mod.execute(unjson(d['inputs']))


if __name__ == '__main__':
    main(sys.argv[1])
