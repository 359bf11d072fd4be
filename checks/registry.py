"""What each check runs, where, and how its evidence is to be read."""
LEVEL = "exploration"
TECH = "runtime monitoring"
CHECKS = {}


def reg(pid, module, fn, rule, technique, note, interp="venv", **kw):
    """rule: how cases are made and what makes one non-trivial; require: events the monitor has
    to have seen for a verdict of `held`."""
    CHECKS[pid] = dict(module=module, fn=fn, rule=rule, interp=interp,
                       technique="runtime monitoring: " + technique, note=note, **kw)


from checks import reg_envs, reg_bound, reg_prm, reg_exps, reg_tamp  # noqa: E402,F401
