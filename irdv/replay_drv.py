"""Replays the drivers natively: all small dimensions against analytic derivatives."""
import subprocess
import build, replay


def C17(obls, seed):
    exe = replay.native('replay_drv')
    try:
        r = subprocess.run([exe, str(seed)], capture_output=True, text=True, timeout=120, cwd=build.workdir())
    except subprocess.TimeoutExpired:
        return dict(confirmed=True, tried=105, input='random quadratic programs: a driver does not end')
    if r.returncode:
        out = [l for l in r.stdout.split('\n') if 'MISMATCH' in l]
        return dict(confirmed=True, tried=105, input=f'random cubic program, {" ".join(out)[:300]} (exit {r.returncode})')
    return dict(confirmed=False, tried=105)
