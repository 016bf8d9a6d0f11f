"""Entry points: one function per property id."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wx

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def _sim(pid, only, apply=None, **kw):
    def f(c):
        import sim_check
        sim_check.run_sim(c, only, **kw)
        if apply:
            sim_check.run_apply(c, apply)
    CHECKS[pid] = f


_sim('C01', ['reset'])
_sim('C02', ['step', 'reset.log', 'reset.world'], ['apply.past'])
_sim('C03', ['pose', 'timestamp', 'carry'], ['apply.pose', 'apply.heading', 'apply.timestamp', 'apply.carry'])
_sim('C04', ['valid'], ['apply.valid'])
_sim('C06', ['clock', 'step.clock', 'reset.clock'])


def _mod(pid, mod, fn=None):
    def f(c):
        import importlib
        getattr(importlib.import_module(mod), fn or 'run_' + pid.lower())(c)
    CHECKS[pid] = f


_mod('C05', 'sim_check')
_mod('C08', 'dyn_check')
_mod('C09', 'dyn_check')
_mod('C10', 'dyn_check')
_mod('C11', 'dyn_check')
_mod('C12', 'dyn_check')

_mod('C18', 'metric_check')
_mod('C19', 'metric_check')
_mod('C20', 'metric_check')
_mod('C21', 'metric_check')
_mod('C22', 'metric_check')
_mod('C23', 'metric_check')
_mod('C24', 'metric_check')
_mod('C25', 'metric_check')
_mod('C26', 'metric_check')

_mod('C13', 'env_check')
_mod('C14', 'env_check')
_mod('C15', 'env_check')
_mod('C16', 'env_check')
_mod('C17', 'env_check')
_mod('C38', 'env_check')
_mod('C07', 'env_check')

_mod('C27', 'obs_check')
_mod('C28', 'obs_check')
_mod('C29', 'obs_check')
_mod('C30', 'agent_check')
_mod('C31', 'agent_check')
_mod('C32', 'agent_check')
_mod('C33', 'agent_check')
_mod('C34', 'data_check')
_mod('C35', 'data_check')
_mod('C36', 'obs_check')
_mod('C37', 'obs_check')


_mod('C39', 'data_check')
_mod('C40', 'struct_check')
_mod('C41', 'render_check')


if __name__ == '__main__':
    pid = sys.argv[1]
    wx.run(pid, CHECKS[pid])
