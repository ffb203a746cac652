"""Runs one simulated execution of a profile: plan + seed (+ recorded decisions) -> result."""
import os, shutil, tempfile, random, hashlib, json, gc, importlib
from . import kernel as kn, world, env

PROFILES = {}


def profile(name):
    if name not in PROFILES: PROFILES[name] = importlib.import_module('profiles.' + name)
    return PROFILES[name]


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = os.environ.get('VERIF_SCRATCH') or world.scratch_base()
    return SCRATCH


def make_plan(name, seed, opts):
    rng = random.Random('plan|%s|%s' % (seed, name))
    return profile(name).gen(rng, dict(opts or {}))


def run_one(name, plan, seed, replay=None, trace=False):
    prof = profile(name)
    plan = json.loads(json.dumps(plan))
    k = kn.Kernel(seed, plan['cfg'], replay, max_steps=plan.get('max_steps', getattr(prof, 'MAX_STEPS', 200_000)), trace=trace)
    d = tempfile.mkdtemp(prefix='bvsim-', dir=scratch())
    try:
        w = world.World(k, d)
        state = prof.setup(k, w, plan)
        reason = k.run(lambda: prof.main(k, w, plan, state))
        if reason not in ('done', 'violation') and hasattr(prof, 'on_stop'): prof.on_stop(k, w, plan, state, reason)
        if reason == 'done' and hasattr(prof, 'after'): prof.after(k, w, plan, state)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for e in k.escapes:
        for prop in getattr(prof, 'ESCAPE_PROPS', ()):
            k.violations.append({'property': prop, 'kind': 'escape', 'detail': '%s: %s %s' % (e[0], e[1], e[2].replace(d, '')), 'at': 0, 'step': 0})
    r = dict(reason=reason, violations=k.violations, harness=k.harness_errors[:3], stats=k.stats, probes=k.probes, steps=k.steps,
             switches=k.switches, h=k.h & 0xffffffffffffffff, simtime=k.now - kn.EPOCH, decisions=k.decisions,
             faults=len(k.fault_log), procs=len(k.procs))
    for v in r['violations']: v['detail'] = v['detail'].replace(d, '')
    r['sample'] = getattr(state, 'summary', None)
    if callable(r['sample']): r['sample'] = r['sample']()
    r['nontrivial'] = bool(getattr(state, 'nontrivial', True))
    if trace: r['trace'] = [x.replace(d, '') for x in k.trace]
    return r
