"""Replays the drivers natively: all small dimensions against analytic derivatives."""
import subprocess
import build, replay


def C19(obls, seed):
    exe = replay.native('replay_fortran')
    try:
        r = subprocess.run([exe, str(seed)], capture_output=True, text=True, timeout=120, cwd=build.workdir())
    except subprocess.TimeoutExpired:
        return dict(confirmed=True, tried=250, input='a wrapper or ODE driver does not end')
    if r.returncode:
        out = [l for l in r.stdout.split('\n') if 'MISMATCH' in l]
        return dict(confirmed=True, tried=250, input=f'{" ".join(out)[:300]} (exit {r.returncode})')
    return dict(confirmed=False, tried=250)
C18 = C19
