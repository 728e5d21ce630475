"""The UV engine as a simulation: see uvgen (workload), uvfault (faults), uvsim (execution and model)."""
import ctypes
import core, profiles, uvsim


def scenario(pid, seed, dry):
    return profiles.scenario(pid, seed, dry)


def run(aipy, scn, log=False):
    if scn['profile'] == 'C13':
        # hundreds of selections of a few MB each: keep them on the heap instead of asking the kernel for zeroed pages
        libc = ctypes.CDLL(None)
        libc.mallopt(-3, 1 << 26)
        libc.mallopt(-1, 1 << 30)
    return core.uv_run(aipy, scn, log)
