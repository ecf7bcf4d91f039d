"""Replays the abs-normal sweeps natively: random piecewise smooth programs against a direct evaluation."""
import os, subprocess
import build, replay


def C20(obls, seed):
    exe = replay.native('replay_abs')
    try:
        r = subprocess.run([exe, str(seed)], capture_output=True, text=True, timeout=120, cwd=build.workdir())
    except subprocess.TimeoutExpired:
        return dict(confirmed=True, tried=400, input='a random program does not end')
    if r.returncode:
        out = [l for l in r.stdout.split('\n') if 'MISMATCH' in l or l.startswith('program')]
        return dict(confirmed=True, tried=400, input=f'random piecewise smooth program ({" ".join(out)[:300]}), exit {r.returncode}')
    return dict(confirmed=False, tried=400)
