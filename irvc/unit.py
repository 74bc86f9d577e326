"""A verification unit: one function of /repo under contract."""
import os
import re
import time
import traceback
import z3
from . import exec as X
from .dom import BvDom, IntDom, S, is_num
from . import front


class Spec:
    """Base of all contracts.  setup() builds the precondition states, post() states the obligations on each outcome."""
    dom = 'bv'
    covers = ()

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def setup(self, ctx, st):
        raise NotImplementedError

    def post(self, ctx, o):
        raise NotImplementedError


class Unit:
    def __init__(self, name, props, src, fn, spec, defs=(), target=None, asserts=True, budget=300, note=None, kind='proof', noinline=None, scope=(), san=None):
        self.name, self.props, self.src, self.fn, self.spec = name, props, src, fn, spec
        self.defs, self.target, self.asserts, self.budget = tuple(defs), target, asserts, budget
        self.note = note
        self.noinline = noinline
        self.san = san
        self.kind = kind
        self.scope = scope    # ((pattern of obligation names, properties they decide), ...); others decide all of props

    def decides(self, obligation, pid):
        for rx, ps in self.scope:
            if re.search(rx, obligation):
                return pid in ps
        return True


_modcache = {}
_laycache = {}


def module(src, defs=(), target=None, asserts=True, noinline=None, san=None):
    k = (src, tuple(defs), target, asserts, noinline, san)
    if k not in _modcache:
        _modcache[k] = front.compile_ir(src, defs, target, asserts, noinline=noinline, san=front.SAN if san is None else san)
    return _modcache[k]


def layout(src, defs=(), target=None):
    k = (src, tuple(defs), target)
    if k not in _laycache:
        _laycache[k] = front.layouts(src, defs, target)
    return _laycache[k]


def run_unit(u):
    t0 = time.time()
    res = {'unit': u.name, 'props': u.props, 'fn': u.fn, 'status': 'error', 'obligations': {}, 'errors': []}
    try:
        mod = module(u.src, u.defs, u.target, u.asserts, u.noinline, u.san)
        dom = BvDom() if u.spec.dom == 'bv' else IntDom()
        ctx = X.Ctx(mod, dom, u.name)
        ctx.spec = u.spec
        ctx.deadline = t0 + u.budget
        ctx.lay = layout(u.src, u.defs, u.target) if getattr(u.spec, 'needs_layout', True) else None
        ctx.unit_obj = u
        u.spec.ctx = ctx
        if getattr(u.spec, 'no_model', False):
            pass
        st = X.State(ctx)
        init = u.spec.setup(ctx, st)
        f = mod.funcs.get(u.fn)
        if f is None:
            raise X.Unsupported('function %s not in module' % u.fn)
        starts = []
        for s, args in init:
            s.frames.append(X.Frame(f, mod))
            for (t, pn, at), v in zip(f.params, args):
                s.frames[-1].env[pn] = v
            if s.check() == z3.unsat:
                res['errors'].append('precondition unsatisfiable (vacuous contract)')
            starts.append(s)
        outs = []
        hit = set()
        u.spec.hit = hit
        for o in ctx.run(starts):
            if o.kind == 'backedge':
                if hasattr(u.spec, 'back'):
                    try:
                        u.spec.back(ctx, o)
                    except X.Dead:
                        pass
                continue
            outs.append(o.kind)
            try:
                tag = u.spec.post(ctx, o)
            except X.Dead:
                tag = None
                o = None
            if o is not None:
                need = [x for x in (tag or ()) if x not in hit]
                if need and o.st.check() == z3.sat:
                    hit.update(need)
        for c in u.spec.covers:
            rec = ctx.oblig.setdefault('outcome reachable: ' + c, [0, 0, 0, None])
            if c in hit:
                rec[0] += 1
            else:
                rec[1] += 1
                rec[3] = {'status': 'failed', 'model': None, 'trail': [], 'detail': 'outcome never reached', 'goal': c}
        if hasattr(u.spec, 'finish'):
            u.spec.finish(ctx)
        res['outcomes'] = {k: outs.count(k) for k in set(outs)}
        res['obligations'] = {k: v for k, v in ctx.oblig.items()}
        res['queries'] = ctx.nquery
        res['solver_s'] = round(ctx.solver_s, 3)
        res['steps'] = ctx.steps
        res['stepped'] = sorted(ctx.stepped)
        res['loops'] = ctx.loops_found
        res['trusted'] = sorted(ctx.trusted)
        res['ir'] = mod.text_hash
        res['second'] = ctx.second
        bad = [k for k, v in ctx.oblig.items() if v[1] or v[2]]
        n = sum(v[0] for v in ctx.oblig.values())
        if res['errors']:
            res['status'] = 'error'
        elif bad:
            res['status'] = 'failed'
        elif n == 0:
            res['errors'].append('no obligations generated (vacuous)')
            res['status'] = 'error'
        else:
            res['status'] = 'proved'
    except front.FrontError as e:
        res['errors'].append('front: ' + str(e))
        res['status'] = 'front'
    except X.Unsupported as e:
        res['errors'].append('unsupported: ' + str(e))
        res['status'] = 'unsupported'
        try:
            res['obligations'] = dict(ctx.oblig)
        except Exception:
            pass
        if os.environ.get('IRVC_VERBOSE'):
            traceback.print_exc()
    except Exception as e:
        res['errors'].append('%s: %s' % (type(e).__name__, e))
        res['status'] = 'internal'
        res['errors'].append(traceback.format_exc()[-1500:])
    res['wall'] = round(time.time() - t0, 3)
    return res
