"""Replays the tape natively: programs recorded with small random buffers must deliver what they deliver with the default buffers."""
import random, shutil, subprocess, tempfile
import build, replay


def run(args, exe, cwd):
    try:
        r = subprocess.run([exe, *map(str, args)], capture_output=True, text=True, timeout=60, cwd=cwd)
    except subprocess.TimeoutExpired:
        return 'does not end'
    return '' if r.returncode == 0 else (r.stdout + r.stderr).strip()[-200:].replace('\n', ' ') or f'exit {r.returncode}'


def C09(obls, seed, more=()):
    exe = replay.native('replay_tape')
    rnd = random.Random(seed)
    cwd = tempfile.mkdtemp(prefix='tape', dir=build.workdir())
    n = 0
    try:
        for n in range(1, 161):
            a = [rnd.randrange(30), rnd.randrange(25), rnd.randint(3, 62), rnd.randint(70, 130), rnd.randint(5, 34), rnd.randint(1, 40), 0, rnd.randrange(2)]
            out = run(a + list(more), exe, cwd)
            if out:
                return dict(confirmed=True, tried=n, input=f'parameters, repetitions, operation/location/value/Taylor buffer, file flag, keep = {a}: {out}')
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return dict(confirmed=False, tried=n)


def C21(obls, seed):
    r = C09(obls, seed, ('params',))
    return r if r['confirmed'] else C09(obls, seed)
