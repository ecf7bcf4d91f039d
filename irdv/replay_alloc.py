"""Replays the array helpers natively for all small sizes."""
import subprocess
import build, replay


def C14(obls, seed):
    exe = replay.native('replay_alloc')
    try:
        r = subprocess.run([exe], capture_output=True, text=True, timeout=120, cwd=build.workdir())
    except subprocess.TimeoutExpired:
        return dict(confirmed=True, tried=343, input='sizes up to 7: does not end')
    if r.returncode:
        return dict(confirmed=True, tried=343, input=f'sizes up to 7: {r.stdout.strip()[:300]} (exit {r.returncode})')
    return dict(confirmed=False, tried=343)
