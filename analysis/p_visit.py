"""P03: visitors reach every child."""
from common import *


class VisitHooks(MustHooks):
    once = True

    def __init__(self, F, trait, evtypes, wrappers):
        super().__init__(F, trait)
        self.trait, self.evtypes, self.wrappers = trait, evtypes, wrappers

    def is_event_type(self, ty):
        return ty in self.evtypes

    def skip_field(self, adt, variant, field):
        # attribute names and object keys are immutable through the mutable API by design (they
        # must stay unique), so the mutable visitor cannot hand them out
        return self.trait.endswith('VisitMut') and (
            (adt['id'] == 'hcl_edit::structure::attribute::Attribute' and field['name'] == 'key') or
            adt['id'] == 'hcl_edit::expr::object::ObjectKey')

    def event_of(self, E, st, call):
        if call.trait != self.trait:
            return None
        out = []
        for a in call.args[1:]:
            out.append(self.peel(E, st, a))
        return out

    def peel(self, E, st, a):
        v = E.full(st, a)
        while v[0] == 'agg' and v[1] == 'adt' and v[2] in self.wrappers and len(v[4]) == 1:
            v = v[4][0]
        # a wrapper-typed term stands for the node it borrows
        t = E.typeof(v)
        if t and t[0] == 'adt' and t[1] in self.wrappers and v[0] != 'agg':
            v = ('fld', v, None, 0)
        return v


def run(rep):
    F = load()
    for tr in ('hcl_edit::visit::Visit', 'hcl_edit::visit_mut::VisitMut'):
        if tr not in F.traits:
            rep.oblige(False, 'anchor:' + tr, 'trait %s not found' % tr)
            continue
        rep.rule('in the default body of every %s method, every constituent of the node for which the trait has a '
                 'method is handed to that method exactly once, on every path' % tr.split('::')[-1])
        methods = []
        # borrowed wrappers such as AttributeMut: single reference field
        wrappers = set()
        for a in F.adts.values():
            if a['crate'] == 'hcl_edit' and a['kind'] == 'Struct' and len(a['variants'][0]['fields']) == 1 and \
                    a['variants'][0]['fields'][0]['ty'][0] == 'ref' and a['variants'][0]['fields'][0]['ty'][1]:
                wrappers.add(a['id'])
        E0 = Engine(F, Hooks())
        ev = {}
        for it in F.traits[tr]['items']:
            f = F.fns.get(it['id'])
            rep.oblige(f is not None, 'nodefault:' + it['id'], '%s has no default body' % it['id'])
            if not f:
                continue
            ptys = fn_params(F, it['id'])[1:]
            nodes = []
            for p in ptys:
                t = E0.strip(p)
                if t[0] == 'adt' and t[1] in wrappers:
                    a = F.adts[t[1]]
                    t = E0.strip(a['variants'][0]['fields'][0]['ty'])
                nodes.append(t)
            methods.append((it, ptys, nodes))
            if len(nodes) == 1:
                ev[nodes[0]] = it['name']
        evtypes = set(ev)
        for it, ptys, nodes in methods:
            h = VisitHooks(F, tr, evtypes, wrappers)
            h.E = Engine(F, h)
            if len(nodes) == 1:
                # constituents of the node itself
                E = must_fn_visit(rep, F, h, it['id'], ptys, nodes, True)
            else:
                E = must_fn_visit(rep, F, h, it['id'], ptys, nodes, False)
            rep.count('visitor methods')
            rep.count('visit events', h.events)
        rep.sample('%s: %d methods, event types: %s' % (tr, len(methods), ', '.join(sorted(F.tstr(t) for t in evtypes))))
    rep.floor('visitor methods', 92)
    rep.floor('visit events', 130)


def must_fn_visit(rep, F, h, fid, ptys, nodes, top):
    names = param_names(F, fid)
    h.symty = {}
    args = []
    for i, t in enumerate(fn_params(F, fid)):
        n = names.get(i + 1, 'arg%d' % i)
        h.symty[n] = t
        args.append(('sym', n))
    h.E.symty.update(h.symty)
    roots = []
    for i, (t, nd) in enumerate(zip(ptys, nodes)):
        a = args[i + 1]
        st = E0strip(F, t)
        if st != nd:
            roots.append((('fld', a, None, 0), nd, top))
        else:
            roots.append((a, nd, top))
    h.failures, h.exits = {}, 0
    nm = F.fnname(fid)
    try:
        E = h.analyse(fid, args, roots)
    except Limit as e:
        rep.oblige(False, '%s:limit' % nm, 'analysis limit reached in %s: %s' % (nm, e))
        return
    rep.count('program points x states', E.nstates)
    rep.oblige(h.exits > 0, '%s:noexit' % nm, 'no return of %s is reachable in the analysis' % nm)
    if not h.failures:
        rep.oblige(True, nm, '')
    for (kind, k), d in sorted(h.failures.items(), key=repr):
        if kind == 'miss':
            rep.oblige(False, '%s:miss:%s' % (nm, d[0]), '%s: child %s is not visited on a path%s' % (
                nm, d[0], (' where ' + ', '.join(d[2])) if d[2] else ''), d[1])
        else:
            rep.oblige(False, '%s:twice:%s' % (nm, d[0]), '%s: child %s is visited more than once on a path' % (
                nm, d[0]), d[1])


def E0strip(F, t):
    return Engine(F, Hooks()).strip(t)
