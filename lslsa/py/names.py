"""
Resolution rule: on every path, each name, module attribute, own attribute and call argument refers
to something that exists.
  undefined-name    a name no scope defines
  unbound-local     a local variable no assignment of which can have happened yet
  branch-unbound    a local that one branch leaves unassigned and that is used afterwards without a matching test
  module-attr       attribute of a repository module that it does not have
  import-name       from-import of a name a repository module does not have
  self-attr         attribute of self that no class of the hierarchy ever defines
  object-attr       attribute of an instance of a known repository class that its hierarchy never defines
  library-attr      attribute of an installed library module that it does not have
  special-attr      a double-underscore attribute that does not exist
  call-args         a call that the signature of the (repository) callee rejects
  format-args       a format string with another number of conversions than values
  all-name          an entry of __all__ that does not exist
"""
import ast
import builtins
import functools
import os
import re
import sys
import types
from . import cfg, library, nominal
from .. import common
from ..common import Finding

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__', '__class__', '__debug__',
                                '__qualname__', '__module__', '__annotations__', 'WindowsError'}


# ---------------------------------------------------------------- scopes
class Scope(object):
    def __init__(self, kind, node, parent):
        self.kind, self.node, self.parent = kind, node, parent
        self.local, self.globals_, self.nonlocals = set(), set(), set()
        self.dynamic = False


def bound_here(body, sc):
    """names bound directly in a scope (not nested functions/classes/comprehensions)"""
    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                sc.local.add(n.id)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            sc.local.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            sc.local.add(n.name)
            for d in n.decorator_list + n.bases:
                self.visit(d)

        def visit_Lambda(self, n):
            for d in n.args.defaults:
                self.visit(d)

        def comp(self, n):
            self.visit(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    sc.local.add(x.target.id)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Global(self, n):
            sc.globals_ |= set(n.names)

        def visit_Nonlocal(self, n):
            sc.nonlocals |= set(n.names)

        def visit_Import(self, n):
            for a in n.names:
                sc.local.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                if a.name == '*':
                    sc.dynamic = True
                else:
                    sc.local.add(a.asname or a.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                sc.local.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                sc.local.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                sc.local.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                sc.local.add(n.name)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id == 'exec':
                sc.dynamic = True
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    sc.local -= sc.globals_ | sc.nonlocals


def args_of(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Names(object):
    def __init__(self, repo, res=None):
        self.repo, self.res = repo, res
        self.out = {}
        self.nom = nominal.Nominal(repo)
        self.lib = library.Library()
        self.n = dict(names_resolved=0, module_attributes=0, own_attributes=0, branch_assigned_locals=0, branch_undecided=0, carried_locals=0, duck_typed=0, library_calls=0, attributes_anywhere=0, carried_decided=0, typed_attributes=0, library_attributes=0, calls_bound=0, formats=0, functions_analysed=0, locals_checked=0)

    def add(self, rule, m, fq, what, line, msg):
        key = (rule, m.rel, fq, what)
        if key not in self.out:
            self.out[key] = Finding(rule, '%s:%s:%s' % (m.rel, fq or '<module>', what), '%s:%s' % (m.rel, line), msg)

    # ------------------------------------------------------------ undefined names
    def scopes(self, m):
        gl, complete = self.repo.names(m.name)
        top = Scope('module', m.tree, None)
        top.local = set(gl)
        top.dynamic = not complete
        self.visit_body(m, m.tree.body, top, '')

    def visit_body(self, m, body, sc, fq):
        for s in body:
            self.visit(m, s, sc, fq)

    def visit(self, m, n, sc, fq):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(m, d, sc, fq)
            f = Scope('func', n, sc)
            f.local = set(args_of(n.args))
            bound_here(n.body, f)
            f.local |= set(args_of(n.args))
            q = (fq + '.' if fq else '') + n.name
            self.n['functions_analysed'] += 1
            self.visit_body(m, n.body, f, q)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(m, d, sc, fq)
            f = Scope('func', n, sc)
            f.local = set(args_of(n.args))
            for x in ast.walk(n.body):
                if isinstance(x, ast.NamedExpr):
                    f.local.add(x.target.id)
            self.visit(m, n.body, f, fq)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(m, d, sc, fq)
            c = Scope('class', n, sc)
            bound_here(n.body, c)
            c.local |= {'__qualname__', '__module__'}
            self.visit_body(m, n.body, c, (fq + '.' if fq else '') + n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            f = Scope('func', n, sc)
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        f.local.add(x.id)
            self.visit(m, n.generators[0].iter, sc, fq)
            for k, g in enumerate(n.generators):
                if k:
                    self.visit(m, g.iter, f, fq)
                for i in g.ifs:
                    self.visit(m, i, f, fq)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(m, e, f, fq)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return
        if isinstance(n, ast.AnnAssign):
            self.visit(m, n.target, sc, fq)
            if n.value is not None:
                self.visit(m, n.value, sc, fq)
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.n['names_resolved'] += 1
                if not self.defined(n.id, sc):
                    self.add('undefined-name', m, fq, n.id, n.lineno, 'the name %r is not defined in any scope' % n.id)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(m, c, sc, fq)

    def defined(self, name, sc):
        if name in BUILTIN:
            return True
        first = True
        while sc is not None:
            if sc.dynamic:
                return True
            if (sc.kind != 'class' or first) and name in sc.local:
                return True
            if sc.kind == 'func' or first:
                if name in sc.globals_:
                    while sc.parent is not None:
                        sc = sc.parent
                    return name in sc.local or sc.dynamic
            first = False
            sc = sc.parent
        return False

    # ------------------------------------------------------------ unbound locals
    def unbound(self, m, f):
        node = f.node
        sc = Scope('func', node, None)
        sc.local = set(args_of(node.args))
        bound_here(node.body, sc)
        if sc.dynamic:
            return
        args = set(args_of(node.args))
        loc = sc.local - args
        if not loc:
            return
        g = cfg.CFG(node)
        bad = self.reaching(g, loc)
        self.n['locals_checked'] += len(loc)
        for name, line in sorted(bad):
            self.add('unbound-local', m, f.qual, name, line, 'the local variable %r cannot have been assigned when it is used here' % name)

    def expected(self, g, n):
        """the statement is in a try block whose handlers deal with a missing name"""
        if not hasattr(g, '_guarded'):
            g._guarded = set()
            for t in ast.walk(g.fn):
                if isinstance(t, ast.Try) and any(h.type is not None and any(isinstance(x, ast.Name) and x.id in ('NameError', 'UnboundLocalError') for x in ast.walk(h.type))
                                                  for h in t.handlers):
                    for s in t.body:
                        g._guarded |= {id(x) for x in ast.walk(s)}
        return id(n.ast) in g._guarded or id(n.extra) in g._guarded

    def reaching(self, g, loc):
        """names used where no assignment can have happened (may-assigned analysis)"""
        loc = frozenset(loc)

        def transfer(n, st):
            d = defs(n) & loc
            return st | d if d else st, (st | d if n.kind in ('iter', 'with_enter') else st) if n.kind != 'stmt' or not isinstance(n.ast, ast.AugAssign) else st
        IN = cfg.forward(g, frozenset(), transfer, lambda a, b: a | b)
        bad = set()
        for n in g.nodes:
            if n.id not in IN:
                continue
            st = IN[n.id]
            for nm, line in uses(n):
                if nm in loc and nm not in st and not self.expected(g, n):
                    bad.add((nm, line))
        return bad

    # ------------------------------------------------------------ locals that a branch leaves unassigned
    def branches(self, m, f):
        """a local assigned in some branches only, used afterwards without a matching test (variables assigned in loops or try blocks are not decided)"""
        node = f.node
        sc = Scope('func', node, None)
        bound_here(node.body, sc)
        if sc.dynamic:
            return
        loc = sc.local - set(args_of(node.args))
        # variables that carry state around a loop are not decided
        inloop = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.For, ast.While)):
                for x in n.body:
                    inloop |= stmt_defs(x)
            elif isinstance(n, ast.Try):
                for x in n.body + n.orelse + [y for h in n.handlers for y in h.body]:
                    inloop |= stmt_defs(x)
            elif isinstance(n, ast.Delete):
                inloop |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        cond = set()
        for n in ast.walk(node):
            if isinstance(n, ast.If):
                for x in n.body + n.orelse:
                    cond |= stmt_defs(x)
            elif isinstance(n, ast.Match):
                return
        # nested functions may read a variable when they are called: only direct uses count
        for name in sorted(loc & inloop):
            self.n['carried_locals'] += 1
            line = self.carried_unbound(f, name)
            if line:
                self.add('carried-unbound', m, f.qual, name, line, 'the local variable %r may not have been assigned when it is used here: a branch or an error handler that leaves it unassigned reaches this use' % name)
        for name in sorted((loc & cond) - inloop):
            line = self.branch_unbound(f, name)
            self.n['branch_assigned_locals'] += 1
            if line:
                self.add('branch-unbound', m, f.qual, name, line, 'the local variable %r is assigned in some branches only and the one that leaves it unassigned reaches this use' % name)

    def branch_unbound(self, f, name):
        g = getattr(f, '_cfg', None)
        if g is None:
            g = f._cfg = cfg.CFG(f.node)
        texts = getattr(g, '_atoms', None)
        if texts is None:
            texts, cnt = {}, {}
            for n in g.nodes:
                if n.kind == 'test' and isinstance(n.ast, ast.If):
                    both = (atoms(n.extra, True), atoms(n.extra, False))
                    texts[n.id] = both
                    for k in {subject(a[0]) for b in both for a in b}:
                        cnt[k] = cnt.get(k, 0) + 1
            # only conditions that are tested more than once can be correlated
            g._atoms = texts = {i: tuple([a for a in b if cnt[subject(a[0])] > 1] for b in both) for i, both in texts.items()}
        LIM = 300
        start = frozenset([(frozenset(), False)])

        def transfer(n, st):
            d = defs(n)
            if not d:
                return st, st
            out = set()
            for facts, have in st:
                out.add((frozenset(x for x in facts if not (x[2] & d)), have or name in d))
            return frozenset(out), st

        stop = self.stops(f, g)

        def edge(n, l, st):
            if n.id in stop and l != 'x':
                return None
            if n.id in texts and l in 'tf':
                out = set()
                for facts, have in st:
                    fs = set(facts)
                    ok = True
                    for txt, pos, names_ in texts[n.id][0 if l == 't' else 1]:
                        if (txt, not pos, names_) in fs:
                            ok = False
                        # membership facts: x == 'a' excludes x == 'b'
                        if pos and any(q[1] and exclusive(txt, q[0]) for q in fs):
                            ok = False
                        fs.add((txt, pos, names_))
                    if ok:
                        out.add((frozenset(fs) if not have else frozenset(), have))
                if len(out) > LIM:
                    raise OverflowError
                return frozenset(out) or None
            if n.kind == 'iter' and l == 'f':
                return st
            return st
        try:
            IN = cfg.forward(g, start, transfer, lambda a, b: a | b, edge)
        except OverflowError:
            self.n['branch_undecided'] += 1
            return None
        for n in g.nodes:
            if n.id not in IN:
                continue
            for nm, line in uses(n):
                if nm == name and any(not have for _, have in IN[n.id]):
                    if self.expected(g, n) or short_circuit(n, name):
                        continue
                    return line
        return None

    def carried_unbound(self, f, name):
        """a local assigned inside loops or try blocks.  Decided: a use that follows, in the same block, the branch or the try statement that left it unassigned
        in this very round (values carried from earlier rounds and loops that may not run are not held against the code)"""
        g = getattr(f, '_cfg', None)
        if g is None:
            g = f._cfg = cfg.CFG(f.node)
        b = getattr(g, '_blocks', None)
        if b is None:
            b = g._blocks = Blocks(f.node)
        # uses that could be reported at all
        us = getattr(g, '_uses', None)
        if us is None:
            us = g._uses = {}
            for n in g.nodes:
                if n.kind != 'entry':
                    for nm, line in uses(n):
                        us.setdefault(nm, []).append((n, line))
            g._quoted = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        cand = [(n, line) for n, line in us.get(name, ()) if not self.expected(g, n) and not b.handled(n) and not short_circuit(n, name) and b.follows(n, name)]
        if not cand or name in g._quoted:
            return None
        self.n['carried_decided'] += 1
        texts = {}
        cnt = {}
        for n in g.nodes:
            if n.kind == 'test' and isinstance(n.ast, ast.If):
                both = (atoms(n.extra, True), atoms(n.extra, False))
                texts[n.id] = both
                for k in {subject(a[0]) for bb in both for a in bb}:
                    cnt[k] = cnt.get(k, 0) + 1
            elif n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant):
                for t in n.ast.targets:
                    if isinstance(t, ast.Name):
                        cnt[t.id] = cnt.get(t.id, 0) + 1
                        for k in ('%s is None' % t.id,):
                            cnt[k] = cnt.get(k, 0) + 1
        # a loop that has run counts as having assigned what it can assign
        left = getattr(g, '_left', None)
        if left is None:
            left = g._left = {}
            lp = {n.id: b.loops(n, True) for n in g.nodes if n.ast is not None}
            for n in g.nodes:
                for s, l in n.succ:
                    if l != 'x' and n.ast is not None and s.ast is not None:
                        gone = [L for L in lp[n.id] if L not in lp[s.id]]
                        if gone:
                            left[(n.id, s.id)] = gone
        after = {k for k, gone in left.items() if any(name in stmt_defs(x) for L in gone for x in L.body + L.orelse) and not any(searching(b, L, name) for L in gone)}
        # only conditions around an assignment or a candidate use, or on the same subject, matter
        sites = {id(n.ast) for n, _ in cand} | {id(n.ast) for n in g.nodes if name in defs(n)}
        rel = set()
        for n in g.nodes:
            if n.id in texts and any(id(x) in sites or isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Raise)) for x in ast.walk(n.ast)):
                rel |= {subject(a[0]) for bb in texts[n.id] for a in bb}
        texts = {i: tuple([a for a in bb if subject(a[0]) in rel and cnt.get(subject(a[0]), 0) > 1] for bb in both) for i, both in texts.items()}
        start = frozenset([(frozenset(), 0)])      # 0 unassigned, 1 assigned, or the statement that left it unassigned

        def transfer(n, st):
            d = defs(n)
            if not d:
                return st, limit(n, st)
            out = set()
            for facts, have in st:
                fs = frozenset(x for x in facts if not (x[2] & d))
                if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant) and have == 0:
                    v = n.ast.value.value
                    for t in n.ast.targets:
                        if isinstance(t, ast.Name):
                            fs |= {(t.id, bool(v), frozenset([t.id])), ('%s is None' % t.id, v is None, frozenset([t.id]))}
                            if isinstance(v, (str, int, float)):
                                fs |= {('%s == %r' % (t.id, v), True, frozenset([t.id]))}
                out.add((fs if not (have or name in d) else frozenset(), 1 if have == 1 or name in d else 0))
            return frozenset(out), limit(n, st)

        def limit(n, st):
            return st

        def edge(n, l, st):
            if l in 'tf' and n.id in texts:
                out = set()
                for facts, have in st:
                    if have == 1:
                        out.add((facts, have))
                        continue
                    fs = set(facts)
                    ok = True
                    for txt, pos, nm in texts[n.id][0 if l == 't' else 1]:
                        if any(q[0] == txt and q[1] != pos for q in fs):
                            ok = False
                        if pos and any(q[1] and exclusive(txt, q[0]) for q in fs):
                            ok = False
                        fs.add((txt, pos, nm))
                    if ok:
                        out.add((frozenset(fs), have))
                if len(out) > 400:
                    raise OverflowError
                return frozenset(out) or None
            return st
        # the handlers an error raised by a node can reach
        catch = {}
        for n in g.nodes:
            if n.kind == 'handler':
                catch[n.id] = exc_names(n.ast)

        def join(a, c):
            return a | c

        stop = self.stops(f, g)
        IN = {g.entry.id: start}
        work = [g.entry]
        steps = 0
        while work:
            n = work.pop()
            steps += 1
            if steps > 60000:
                self.n['branch_undecided'] += 1
                return None
            st = IN[n.id]
            o, x = transfer(n, st)
            if n.kind == 'dispatch':
                pass
            for s, l in n.succ:
                if l != 'x' and n.id in stop:
                    continue
                v = x if l == 'x' else o
                if n.kind == 'dispatch' and l == 'x':
                    v = frozenset((q[0], q[1]) for q in v)
                if l == 'x':
                    # only errors some handler is there for; remember what raised
                    if s.kind == 'dispatch':
                        v = frozenset((fs, h, raised(n)) for fs, h in v)
                elif n.kind == 'dispatch' and s.kind == 'handler':
                    v = frozenset((q[0], q[1]) for q in v if q[1] == 1 or may_catch(q[2], catch[s.id]))
                elif n.kind == 'dispatch':
                    v = frozenset((q[0], q[1]) for q in v)
                try:
                    v = edge(n, l, v) if v else None
                except OverflowError:
                    self.n['branch_undecided'] += 1
                    return None
                if not v:
                    continue
                if (n.id, s.id) in after:
                    v = frozenset([(frozenset(), 1)])
                old = IN.get(s.id)
                new = v if old is None else old | v
                if len(new) > 1500:
                    self.n['branch_undecided'] += 1
                    return None
                if new != old:
                    IN[s.id] = new
                    work.append(s)
        for n, line in cand:
            if n.id in IN and any(h != 1 for _, h in IN[n.id]):
                return line
        return None

    # ------------------------------------------------------------ attributes of modules, imports, __all__
    def attrs(self, m):
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                base = m.resolve_from(s)
                for a in s.names:
                    if a.name == '*':
                        continue
                    if base in self.repo.mods:
                        self.n['module_attributes'] += 1
                        ns, comp = self.repo.names(base)
                        if comp and a.name not in ns:
                            self.add('import-name', m, '', '%s.%s' % (base, a.name), s.lineno, 'module %s has no %r' % (base, a.name))
                    elif base in self.repo.native:
                        if self.repo.native[base] and a.name not in self.repo.native[base]:
                            self.add('import-name', m, '', '%s.%s' % (base, a.name), s.lineno, 'extension module %s has no %r' % (base, a.name))
                    elif base in self.lib._n and base.split('.')[0] != 'lsl':
                        self.n['module_attributes'] += 1
                        if a.name not in self.lib._n[base] and not guarded_import(m.tree, s):
                            self.add('import-name', m, '', '%s.%s' % (base, a.name), s.lineno, 'the installed module %s has no %r' % (base, a.name))
                    elif base.split('.')[0] == 'lsl' and base not in ('lsl.version',) and not base.startswith('lsl.version'):
                        self.add('import-name', m, '', base, s.lineno, 'there is no module %s' % base)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == 'lsl' and a.name not in self.repo.mods and a.name not in self.repo.native and not a.name.startswith('lsl.version'):
                        self.add('import-name', m, '', a.name, s.lineno, 'there is no module %s' % a.name)
        al, known = self.repo.all_list(m)
        if al is not None:
            ns, comp = self.repo.names(m.name)
            for nm, e in al:
                self.n['module_attributes'] += 1
                if comp and nm not in ns:
                    self.add('all-name', m, '', nm, e.lineno, '__all__ lists %r, which the module does not define' % nm)

    def modattr(self, m, f, tree, local, fq):
        for n in own(tree):
            if isinstance(n, ast.Attribute):
                r = self.repo.dotted(m, n.value, local)
                if r is not None and r[0] == 'mod' and r[1] in self.repo.mods:
                    self.n['module_attributes'] += 1
                    ns, comp = self.repo.names(r[1])
                    if comp and n.attr not in ns and isinstance(n.ctx, ast.Load):
                        self.add('module-attr', m, fq, '%s.%s' % (r[1], n.attr), n.lineno, 'module %s has no attribute %r' % (r[1], n.attr))

    # ------------------------------------------------------------ attributes of self
    def class_attrs(self, c):
        """names any class of the hierarchy (bases and subclasses) defines; None if not closed"""
        out = set(dir(object)) | {'__dict__', '__class__', '__doc__', '__module__'}
        fam = set()
        for s in [c] + self.repo.subclasses(c):
            fam |= set(self.repo.mro(s)[0])
            ext = self.library_bases(s)
            if ext is None:
                return None
            out |= ext
        for k in fam:
            if '__getattr__' in k.methods or '__getattribute__' in k.methods or '__slots__' in str(ast.dump(k.node))[:0]:
                return None
            for s in k.node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(s.name)
                else:
                    out |= stmt_defs(s)
                    for sub in ast.walk(s):
                        if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            out.add(sub.name)
                        if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                            out.add(sub.id)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)          # any attribute stored inside the class body's methods
                if isinstance(n, ast.Call):
                    fn = ast.unparse(n.func)
                    if fn in ('setattr', 'object.__setattr__', 'self.__setattr__') or fn.endswith('__dict__.update') or fn == 'super().__setattr__':
                        if fn != 'setattr' or not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                            return None
                        out.add(n.args[1].value)
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__' and isinstance(n.ctx, ast.Store):
                    return None
            if [d for d in k.decorators if d.split('.')[-1] != 'total_ordering']:
                return None
            if k.decorators:
                out |= {'__lt__', '__le__', '__gt__', '__ge__'}
        return out

    def either(self, r):
        """the library names a module-level name may stand for"""
        out = []
        bs = r[1] if isinstance(r[1], list) else [r[1]]
        for b in bs:
            v = getattr(b, 'value', None)
            if not isinstance(b, ast.Assign) or v is None:
                return []
            x = self.repo.dotted(r[2], v)
            if x is None or x[0] != 'ext':
                return []
            out.append(x[1])
        return out

    def never_returns(self, f, depth=0):
        if not hasattr(f, '_noret'):
            f._noret = False
            g = getattr(f, '_cfg', None)
            if g is None:
                g = f._cfg = cfg.CFG(f.node)
            if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)) and not f.decorators:
                stop = self.stops(f, g)
                seen, todo = set(), [g.entry]
                while todo:
                    n = todo.pop()
                    if n.id in seen:
                        continue
                    seen.add(n.id)
                    todo.extend(x for x, l in n.succ if l == 'x' or n.id not in stop)
                f._noret = g.exit.id not in seen
        return f._noret

    def stops(self, f, g):
        """the nodes of a function after which nothing follows: calls of functions that always raise"""
        if not hasattr(g, '_stops'):
            g._stops = set()
            out = set()
            for n in g.nodes:
                v = getattr(n.ast, 'value', None) if n.kind in ('stmt', 'return') else None
                if isinstance(v, ast.Call):
                    r = self.repo.dotted(f.mod, v.func, self._locals.get(f, ()))
                    t = r[1] if r is not None and r[0] == 'func' else r[1] if r is not None and r[0] == 'umethod' else None
                    if t is None and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and f.cls is not None and f.node.args.args and v.func.value.id == f.node.args.args[0].arg:
                        t = self.repo.method(f.cls, v.func.attr)
                        if t is not None and any(v.func.attr in k.methods for k in self.repo.subclasses(f.cls)):
                            t = None
                    if t is not None and t is not f and self.never_returns(t) or isinstance(v.func, ast.Attribute) and v.func.attr in ('error', 'exit') and 'parser' in ast.unparse(v.func.value).lower():
                        out.add(n.id)
            g._stops = out
        return g._stops

    def library_bases(self, c):
        """what the library classes a class derives from define; None if one is not known"""
        out = set()
        for k in self.repo.mro(c)[0]:
            for b in k.node.bases:
                r = self.repo.dotted(k.mod, b)
                if r is not None and r[0] == 'class' or r == ('builtin', 'object'):
                    continue
                if r is not None and r[0] == 'ext' and r[1] in self.lib.bases:
                    out |= self.lib.bases[r[1]]
                    continue
                if r is not None and r[0] == 'val':
                    # one name for what different versions call differently
                    alt = [self.lib.bases[x] for x in self.either(r) if x in self.lib.bases]
                    if alt:
                        out |= set().union(*alt)
                        continue
                if r is not None and r[0] == 'builtin' and isinstance(getattr(builtins, r[1], None), type):
                    out |= set(dir(getattr(builtins, r[1])))
                    continue
                return None
            if any(kw.arg != 'metaclass' for kw in k.node.keywords):
                return None
        return out

    def selfattr(self, m, f):
        c = f.cls
        if c is None or f.is_static or f.parent is not None:
            return
        a = f.node.args
        pos = a.posonlyargs + a.args
        if not pos:
            return
        me = pos[0].arg
        if f.is_class:
            return
        at = self._ca.get(c)
        if c not in self._ca:
            at = self._ca[c] = self.class_attrs(c)
        if at is None:
            return
        guarded = self.attr_guards(f)
        if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            return
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                self.n['own_attributes'] += 1
                nm = n.attr
                if nm in at or nm in guarded:
                    continue
                if nm.startswith('__') and nm.endswith('__') and nm in dir(object):
                    continue
                self.add('self-attr', m, f.qual, nm, n.lineno, 'no class of the hierarchy of %s defines the attribute %r' % (c.name, nm))

    def attr_guards(self, f):
        """attribute names the function itself tests for"""
        guarded = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'delattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                guarded.add(n.args[1].value)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Try):
                if any('AttributeError' in ast.unparse(h.type) if h.type is not None else True for h in n.handlers):
                    for s in n.body + [y for h in n.handlers for y in h.body]:
                        for x in ast.walk(s):
                            if isinstance(x, ast.Attribute):
                                guarded.add(x.attr)
        return guarded

    def outside_stores(self):
        """attribute names that code outside the class (or the extension modules) puts on objects"""
        if getattr(self, '_os', None) is None:
            out = set()
            for m in self.repo.mods.values():
                for f in m.funcs:
                    pos = f.node.args.posonlyargs + f.node.args.args
                    me = pos[0].arg if f.cls is not None and pos else None
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me):
                            out.add(n.attr)
                for n in own(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
            for root, _, files in os.walk(os.path.join(common.REPO, 'lsl')):
                for fn in files:
                    if fn.endswith(('.cpp', '.hpp')):
                        out |= set(re.findall(r'SetAttrString\(\s*[^,]+,\s*"(\w+)"', open(os.path.join(root, fn), errors='replace').read()))
            self._os = out
        return self._os

    def typedattr(self, m, f):
        """attributes of values whose class is known"""
        guarded = None
        for n in own(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            if isinstance(n.value, ast.Name) and f.cls is not None and f.node.args.args and n.value.id == f.node.args.args[0].arg:
                continue
            t = self.nom.of(n.value, f)
            if not t:
                continue
            self.n['typed_attributes'] += 1
            ok = False
            for c in t:
                if c not in self._ca:
                    self._ca[c] = self.class_attrs(c)
                if self._ca[c] is None or n.attr in self._ca[c]:
                    ok = True
            if ok or n.attr in self.outside_stores():
                continue
            guarded = self.attr_guards(f) if guarded is None else guarded
            if n.attr in guarded:
                continue
            self.add('object-attr', m, f.qual, '%s.%s' % ('/'.join(sorted(c.name for c in t)), n.attr), n.lineno,
                     'an instance of %s has no attribute %r' % ('/'.join(sorted('%s.%s' % (c.mod.name, c.name) for c in t)), n.attr))

    def dunders(self, m, tree, fq):
        for n in own(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith('__') and n.attr.endswith('__') and n.attr not in self.known_dunders():
                self.add('special-attr', m, fq, n.attr, n.lineno, 'Python has no special attribute %r and nothing in the repository defines it' % n.attr)

    def known_dunders(self):
        if getattr(self, '_kd', None) is None:
            out = set()
            for o in (object, type, int, float, str, bytes, list, dict, set, complex, types.FunctionType, types.MethodType, types.ModuleType, types.CodeType, types.GeneratorType, BaseException, property):
                out |= {x for x in dir(o) if x.startswith('__')}
            out |= {x for x in dir(sys) if x.startswith('__')}
            out |= {'__spec__', '__path__', '__file__', '__loader__', '__package__', '__enter__', '__exit__', '__call__', '__array_interface__', '__array__', '__array_struct__', '__version__',
                    '__wrapped__', '__all__', '__getattr__', '__fspath__', '__index__', '__del__', '__builtins__', '__config__', '__members__', '__slots__', '__array_function__', '__array_ufunc__', '__set_name__'}
            for m in self.repo.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
            self._kd = out
        return self._kd

    def extattr(self, m, f, tree, local, fq):
        """attributes of installed library modules"""
        guarded = None
        for n in own(tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            r = self.repo.dotted(m, n.value, local)
            if r is None or r[0] != 'ext' or r[1] in self.repo.native:
                continue
            names = self.lib.names(r[1])
            if names is None:
                continue
            self.n['library_attributes'] += 1
            if n.attr in names:
                continue
            if f is not None:
                guarded = self.attr_guards(f) if guarded is None else guarded
                if n.attr in guarded:
                    continue
            elif in_guard(m.tree, n):
                continue
            self.add('library-attr', m, fq, '%s.%s' % (r[1], n.attr), n.lineno, 'the installed module %s has no attribute %r' % (r[1], n.attr))

    def libcalls(self, m, f, tree, local, fq):
        """keywords and number of arguments of calls of library functions whose signature is known"""
        guarded = None
        for n in own(tree):
            if not isinstance(n, ast.Call):
                continue
            r = self.repo.dotted(m, n.func, local)
            if r is None or r[0] != 'ext' or r[1] not in self.lib.sigs:
                continue
            ps = self.lib.sigs[r[1]]
            kinds = [k for _, k in ps]
            self.n['library_calls'] += 1
            bad = None
            if 'VAR_KEYWORD' not in kinds and not any(k.endswith('variadic keyword') for k in kinds):
                ok = {nm for nm, k in ps if k in ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY') or k.startswith(('positional or', 'keyword'))}
                for k in n.keywords:
                    if k.arg is not None and k.arg not in ok:
                        bad = 'has no argument %r' % k.arg
            if 'VAR_POSITIONAL' not in kinds and not any(k == 'variadic positional' for k in kinds) and not any(isinstance(a, ast.Starred) for a in n.args):
                mx = sum(1 for k in kinds if k in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD') or k.startswith('positional'))
                if len(n.args) > mx:
                    bad = 'takes at most %d positional arguments, %d given' % (mx, len(n.args))
            if bad:
                if f is not None:
                    guarded = self.type_guards(f) if guarded is None else guarded
                    if id(n) in guarded:
                        continue
                self.add('library-args', m, fq, r[1], n.lineno, 'call of %s: %s' % (r[1], bad))

    def type_guards(self, f):
        out = set()
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try) and any(exc_names(h) is None or 'TypeError' in exc_names(h) for h in t.handlers):
                out |= {id(x) for s in t.body for x in ast.walk(s)}
        return out

    def everywhere(self):
        """attributes that nothing anywhere has: no class, module or object of the repository or of a library it uses"""
        if self.lib.universe is None:
            return
        uni = set(self.lib.universe) | self.known_dunders()
        for mods_ in (self.repo.mods.values(),):
            for m in mods_:
                docs = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Expr)}
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        uni.add(n.name)
                    elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        uni.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                        uni.update(x.lstrip('_') for x in re.findall(r'[A-Za-z_]\w*', n.value.replace('-', '_')))
                        uni.update(re.findall(r'[A-Za-z_]\w*', n.value))
                    elif isinstance(n, ast.keyword) and n.arg:
                        uni.add(n.arg)
                    elif isinstance(n, ast.alias):
                        uni.update((n.asname or n.name).split('.'))
                for n in m.tree.body:
                    uni |= stmt_defs(n)
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef):
                        for x in n.body:
                            uni |= stmt_defs(x)
        for v in self.repo.native.values():
            uni |= set(v or ())
        # what comes from a library that is not installed can have any attribute
        away = tuple(self.lib.failed)
        for m in self.repo.mods.values():
            for f in m.funcs:
                guarded = None
                for n in own(f.node):
                    if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                        continue
                    self.n['attributes_anywhere'] += 1
                    if n.attr in uni:
                        continue
                    if any(self.absent(m, f, x, away) for x in ast.walk(n.value) if isinstance(x, ast.Name)):
                        continue
                    guarded = self.attr_guards(f) if guarded is None else guarded
                    if n.attr in guarded:
                        continue
                    self.add('nowhere-attr', m, f.qual, n.attr, n.lineno, 'nothing in the repository or in the libraries it uses has an attribute %r' % n.attr)

    def ducks(self):
        """what is used of a parameter (or of an attribute holding one): a class of the repository offers all of it"""
        closed = {}
        for m in self.repo.mods.values():
            for c in m.classes.values():
                at = self._ca.get(c) if c in self._ca else self._ca.setdefault(c, self.class_attrs(c))
                if at is not None:
                    closed[c] = at
        common_ = set()
        for o in (object, int, float, str, bytes, list, dict, set, complex, type(sys.stdin), BaseException):
            common_ |= set(dir(o))
        common_ |= self.outside_stores()
        for m in self.repo.mods.values():
            for f in m.funcs:
                pos = f.node.args.posonlyargs + f.node.args.args
                me = pos[0].arg if f.cls is not None and f.parent is None and pos and not f.is_static else None
                use = {}
                guarded = self.attr_guards(f)
                stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in [x.arg for x in pos] and n.value.id != me and n.value.id not in stored:
                        use.setdefault(n.value.id, {}).setdefault(n.attr, n.lineno)
                for nm, at in use.items():
                    self.duck(m, f.qual, nm, at, guarded, closed, common_)
            for c in m.classes.values():
                use = {}
                guarded = set()
                for fs in c.methods.values():
                    for f in fs:
                        pos = f.node.args.posonlyargs + f.node.args.args
                        if f.is_static or not pos:
                            continue
                        guarded |= self.attr_guards(f)
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == pos[0].arg:
                                use.setdefault(n.value.attr, {}).setdefault(n.attr, n.lineno)
                for nm, at in use.items():
                    if not self.nom.attr(c, nm):
                        self.duck(m, c.name, nm, at, guarded, closed, common_)

    def duck(self, m, qual, nm, at, guarded, closed, common_):
        names_ = set(at) - guarded - common_
        if len(names_) < 4:
            return
        self.n['duck_typed'] += 1
        if any(names_ <= a for a in closed.values()):
            return
        for x in sorted(names_):
            rest = names_ - {x}
            k = [c for c, a in closed.items() if rest <= a]
            if k:
                self.add('duck-attr', m, qual, '%s.%s' % (nm, x), at[x], '%r is used like an instance of %s, which has no attribute %r' % (nm, '/'.join(sorted(c.name for c in k)[:3]), x))

    def absent(self, m, f, name, away):
        """the object comes from a library whose classes are not all known here"""
        def gone(t):
            return any(t == a or t.startswith(a + '.') for a in away)
        r = self.repo.dotted(m, name, self._locals[f])
        if r is not None and r[0] == 'ext' and gone(r[1]):
            return True
        for b in m.bind.get(name.id, ()):
            if isinstance(b, ast.Import) and any(gone(x.name) for x in b.names) or isinstance(b, ast.ImportFrom) and gone(b.module or ''):
                return True
        # made by a call into a library
        for s in ast.walk(f.node):
            v = s.value if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name.id for t in s.targets) else None
            if isinstance(s, ast.withitem) and isinstance(s.optional_vars, ast.Name) and s.optional_vars.id == name.id:
                v = s.context_expr
            if isinstance(v, ast.Call):
                r = self.repo.dotted(m, v.func, self._locals[f])
                if r is not None and r[0] == 'ext' and r[1] not in self.repo.native and r[1].split('.')[0] not in ('numpy', 'scipy', 'math', 'os', 'time', 'datetime'):
                    return True
        return False

    # ------------------------------------------------------------ calls
    def calls(self, m, f, tree, local, fq):
        cls = f.cls if f is not None else None
        me = None
        if cls is not None and f.parent is None and not f.is_static:
            pos = f.node.args.posonlyargs + f.node.args.args
            me = pos[0].arg if pos else None
        for n in own(tree):
            if not isinstance(n, ast.Call):
                continue
            tgt, skip = None, 0
            fn = n.func
            if me and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                owner = self.repo.method(cls, fn.attr)
                if owner is None:
                    continue
                # an override in a subclass may have another signature: accept if any accepts
                cands = [owner] + [k.methods[fn.attr][-1] for k in self.repo.subclasses(cls) if fn.attr in k.methods]
                if any(isp(x) for x in cands):
                    continue
                if any(sub_assigned(cls, fn.attr)):
                    continue
                tgt = [(x, 0 if x.is_static else 1) for x in cands]
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and cls is not None:
                b = [k for k in self.repo.mro(cls)[0][1:]]
                for k in b:
                    if fn.attr in k.methods:
                        x = k.methods[fn.attr][-1]
                        if not isp(x):
                            tgt = [(x, 0 if x.is_static else 1)]
                        break
            else:
                r = self.repo.dotted(m, fn, local)
                if r is None:
                    tgt = self.typed_method(f, fn)
                elif r[0] == 'func':
                    if decorated(r[1]):
                        continue
                    tgt = [(r[1], 0)]
                elif r[0] == 'class':
                    k = r[1]
                    mro, full = self.repo.mro(k)
                    if k.decorators or k.node.keywords:
                        continue
                    x = None
                    for q in mro:
                        if '__new__' in q.methods or any(b_.keywords for b_ in [q.node]):
                            x = 'skip'
                            break
                        if '__init__' in q.methods:
                            x = q.methods['__init__'][-1]
                            break
                        if not self.repo.bases(q)[1]:
                            x = 'skip'
                            break
                    if x == 'skip':
                        continue
                    if x is None:
                        if full and (n.args or n.keywords) and not any(isinstance(z, ast.Starred) for z in n.args) and all(z.arg for z in n.keywords):
                            self.add('call-args', m, fq, k.name, n.lineno, '%s takes no arguments' % k.name)
                        continue
                    if decorated(x):
                        continue
                    tgt = [(x, 1)]
                elif r[0] == 'umethod':
                    if r[1] is None or isp(r[1]) or decorated(r[1]):
                        continue
                    tgt = [(r[1], 1 if r[1].is_class else 0)]
            if not tgt:
                continue
            self.n['calls_bound'] += 1
            errs = [bind(x.node.args, sk, n) for x, sk in tgt]
            if all(errs):
                self.add('call-args', m, fq, tgt[0][0].qual, n.lineno, 'call of %s: %s' % (tgt[0][0].qual, errs[0]))

    def typed_method(self, f, fn):
        if f is None or not isinstance(fn, ast.Attribute):
            return None
        t = self.nom.of(fn.value, f)
        if not t:
            return None
        out = []
        for c in t:
            for k in [c] + self.repo.subclasses(c):
                x = self.repo.method(k, fn.attr)
                if x is None or isp(x) or any(sub_assigned(k, fn.attr)):
                    return None
                out.append((x, 0 if x.is_static else 1))
        return out

    # ------------------------------------------------------------ format strings
    def formats(self, m, tree, fq):
        for n in own(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                need = percent(n.left.value)
                if need is None:
                    continue
                self.n['formats'] += 1
                if isinstance(n.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in n.right.elts):
                        continue
                    if need != len(n.right.elts):
                        self.add('format-args', m, fq, n.left.value[:40], n.lineno, 'the format has %d conversions for %d values' % (need, len(n.right.elts)))
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Attribute)) and need > 1 and not isinstance(n.right, ast.Attribute):
                    if isinstance(n.right, ast.BinOp):
                        continue
                    self.add('format-args', m, fq, n.left.value[:40], n.lineno, 'the format has %d conversions for one value' % need)
                elif isinstance(n.right, ast.Call) and isinstance(n.right.func, ast.Name) and n.right.func.id in SCALAR and need > 1 and self.repo.dotted(m, n.right.func) == ('builtin', n.right.func.id):
                    self.add('format-args', m, fq, n.left.value[:40], n.lineno, 'the format has %d conversions for one value' % need)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'info', 'warning', 'error', 'critical', 'exception') \
                    and 'log' in ast.unparse(n.func.value).lower() and len(n.args) > 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) \
                    and not any(isinstance(a, ast.Starred) for a in n.args):
                need = percent(n.args[0].value)
                if need is not None:
                    self.n['formats'] += 1
                    if need != len(n.args) - 1:
                        self.add('format-args', m, fq, n.args[0].value[:40], n.lineno, 'the log format has %d conversions for %d values' % (need, len(n.args) - 1))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                import string
                try:
                    flds = [f for _, f, _, _ in string.Formatter().parse(n.func.value.value) if f is not None]
                except ValueError:
                    continue
                self.n['formats'] += 1
                auto, kws = 0, {k.arg for k in n.keywords}
                for f in flds:
                    h = re.split(r'[.\[]', f)[0]
                    if h == '':
                        auto += 1
                        ok = auto <= len(n.args)
                    elif h.isdigit():
                        ok = int(h) < len(n.args)
                    else:
                        ok = h in kws
                    if not ok:
                        self.add('format-args', m, fq, n.func.value.value[:40], n.lineno, 'the format refers to argument %r that is not given' % (h or auto - 1))

    def run(self):
        self._ca = {}
        want, calls, imports = set(), set(), set()
        self._locals = {}
        for m in self.repo.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    imports |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    imports |= {n.module} | {'%s.%s' % (n.module, a.name) for a in n.names if a.name != '*'}
                    want.add(n.module)
            for f, tree, local in [(None, m.tree, ())] + [(f, f.node, self.locals_of(f)) for f in m.funcs]:
                if f is not None:
                    self._locals[f] = local
                for n in own(tree):
                    if isinstance(n, ast.Attribute):
                        r = self.repo.dotted(m, n.value, local)
                        if r is not None and r[0] == 'ext':
                            want.add(r[1])
                    elif isinstance(n, ast.Call):
                        r = self.repo.dotted(m, n.func, local)
                        if r is not None and r[0] == 'ext':
                            calls.add(r[1])
        imports = {x for x in imports if x and x.split('.')[0] != 'lsl' and not x.startswith('_')}
        bases = set()
        for m in self.repo.mods.values():
            for c in m.classes.values():
                for x in c.node.bases:
                    r = self.repo.dotted(m, x)
                    if r is not None and r[0] == 'ext':
                        bases.add(r[1])
                    elif r is not None and r[0] == 'val':
                        bases |= set(self.either(r))
        self.lib.prepare(want, calls, imports, bases)
        for m in self.repo.mods.values():
            self.scopes(m)
            self.attrs(m)
            top = cfg.Module(m.tree)
            self.modattr(m, None, m.tree, (), '')
            self.calls(m, None, m.tree, (), '')
            self.formats(m, m.tree, '')
            self.dunders(m, m.tree, '')
            self.extattr(m, None, m.tree, (), '')
            for f in m.funcs:
                local = self._locals[f]
                self.nom.env = nominal.flow(self.nom, f)
                self.modattr(m, f, f.node, local, f.qual)
                self.calls(m, f, f.node, local, f.qual)
                self.formats(m, f.node, f.qual)
                self.unbound(m, f)
                self.branches(m, f)
                self.selfattr(m, f)
                self.typedattr(m, f)
                self.dunders(m, f.node, f.qual)
                self.extattr(m, f, f.node, local, f.qual)
                self.libcalls(m, f, f.node, local, f.qual)
            self.libcalls(m, None, m.tree, (), '')
        self.everywhere()
        self.ducks()
        return list(self.out.values())

    def locals_of(self, f):
        out = LocalNames()
        fn = f
        while f is not None:
            sc = Scope('func', f.node, None)
            bound_here(f.node.body, sc)
            out |= sc.local | set(args_of(f.node.args))
            for n in ast.walk(f.node):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            out.add(x.id)
                        if isinstance(x, ast.arg):
                            out.add(x.arg)
            f = f.parent
        # names bound by imports of the function and by nothing else
        cnt, imp = {}, {}
        while fn is not None:
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
                elif isinstance(n, ast.arg):
                    cnt[n.arg] = cnt.get(n.arg, 0) + 1
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n is not fn.node:
                    cnt[n.name] = cnt.get(n.name, 0) + 1
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    cnt[n.name] = cnt.get(n.name, 0) + 1
                elif isinstance(n, ast.Import):
                    for al in n.names:
                        nm = al.asname or al.name.split('.')[0]
                        imp.setdefault(nm, set()).add(al.name if al.asname else al.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    base = fn.mod.resolve_from(n)
                    for al in n.names:
                        imp.setdefault(al.asname or al.name, set()).add('%s.%s' % (base, al.name))
            fn = fn.parent
        for nm, tg in imp.items():
            if nm not in cnt and len(tg) == 1:
                t = list(tg)[0]
                if t.split('.')[0] != 'lsl':
                    out.imports[nm] = ('ext', t)
                elif t in self.repo.mods:
                    out.imports[nm] = ('mod', t)
        return out


def atoms(e, pos):
    """facts a branch outcome establishes: (text, truth, names)"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return atoms(e.operand, not pos)
    if isinstance(e, ast.BoolOp):
        out = [(ast.unparse(e), pos, names_in(e))]
        if isinstance(e.op, ast.And) == pos:
            for v in e.values:
                out += atoms(v, pos)
        return out
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, l, r = e.ops[0], e.left, e.comparators[0]
        flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        for k, v in flip.items():
            if isinstance(op, k):
                return [(ast.unparse(ast.Compare(left=l, ops=[v()], comparators=[r])), not pos, names_in(e))]
    return [(ast.unparse(e), pos, names_in(e))]


def names_in(e):
    return frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name))


@functools.lru_cache(None)
def subject(a):
    """what a condition is about: the left side of a comparison with a constant, else the condition"""
    x = ast.parse(a, mode='eval').body
    if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.Eq) and isinstance(x.comparators[0], ast.Constant):
        return ast.unparse(x.left)
    return a


@functools.lru_cache(None)
def exclusive(a, b):
    """x == 'p' and x == 'q' cannot both hold"""
    if a == b:
        return False
    try:
        x, y = ast.parse(a, mode='eval').body, ast.parse(b, mode='eval').body
    except SyntaxError:
        return False
    return all(isinstance(z, ast.Compare) and len(z.ops) == 1 and isinstance(z.ops[0], ast.Eq) and isinstance(z.comparators[0], ast.Constant) for z in (x, y)) \
        and ast.unparse(x.left) == ast.unparse(y.left) and x.comparators[0].value != y.comparators[0].value


SCALAR = {'len', 'int', 'float', 'str', 'repr', 'round', 'abs', 'ord', 'chr', 'hex', 'bin', 'id', 'bool', 'type'}
PURE_CALLS = {'os.path.split', 'os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.exists', 'os.path.isfile', 'os.path.isdir',
              'len', 'isinstance', 'type', 'str', 'repr', 'print', 'range', 'list', 'tuple', 'dict', 'set', 'sorted', 'enumerate', 'zip', 'time.time'}


@functools.lru_cache(None)
def raised(n):
    """the kinds of error a statement can raise, as facts"""
    root = n.extra if n.kind == 'test' else n.ast
    if n.kind == 'with_enter':
        root = ast.Tuple(elts=[i.context_expr for i in n.ast.items])
    elif n.kind == 'iter':
        root = n.ast.iter
        return frozenset(['any'])
    kinds = set()
    for x in ast.walk(root) if root is not None else ():
        if isinstance(x, ast.Call):
            f = ast.unparse(x.func)
            if f in PURE_CALLS or f.endswith(('.tell', '.strip', '.append', '.extend', '.lower', '.upper', '.startswith', '.endswith', '.split', '.replace')):
                kinds |= {'TypeError', 'AttributeError'}
            elif f in ('int', 'float', 'complex'):
                kinds |= {'ValueError', 'TypeError'}
            else:
                kinds.add('any')
        elif isinstance(x, ast.Subscript):
            kinds |= {'KeyError', 'IndexError', 'TypeError', 'LookupError'}
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            kinds |= {'ImportError', 'ModuleNotFoundError'}
        elif isinstance(x, ast.BinOp):
            kinds |= {'TypeError', 'ZeroDivisionError', 'OverflowError', 'ArithmeticError'} | ({'ValueError'} if isinstance(x.op, (ast.Mod, ast.Pow)) else set())
        elif isinstance(x, (ast.Compare, ast.UnaryOp, ast.JoinedStr)):
            kinds |= {'TypeError', 'ValueError'}
        elif isinstance(x, ast.Attribute):
            kinds |= {'AttributeError'}
        elif isinstance(x, ast.Assert):
            kinds |= {'AssertionError'}
        elif isinstance(x, (ast.Raise, ast.Yield, ast.YieldFrom, ast.Await)):
            kinds.add('any')
        elif isinstance(x, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in x.targets):
            kinds |= {'ValueError', 'TypeError'}
    return frozenset(kinds)


def exc_names(h):
    """the error types a handler names, None for all of them"""
    if h.type is None:
        return None
    es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = {ast.unparse(e).split('.')[-1] for e in es}
    return None if out & {'Exception', 'BaseException'} else out


def may_catch(facts, names_):
    return names_ is None or 'any' in facts or bool(facts & names_)


def searching(b, y, name):
    """a for loop that assigns the name only when it finds something (not on its first round)"""
    if not isinstance(y, (ast.For, ast.AsyncFor)):
        return False
    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(y.target)):
        return False

    def always(lst):
        for z in lst:
            if isinstance(z, (ast.With, ast.AsyncWith)):
                if name in {x.id for i in z.items for x in ast.walk(i) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} or always(z.body):
                    return True
            elif isinstance(z, ast.If):
                if always(z.body) and always(z.orelse):
                    return True
            elif isinstance(z, (ast.For, ast.While)):
                if always(z.body) or isinstance(z, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(z.target)):
                    return True
            elif isinstance(z, ast.Try):
                if always(z.body) or always(z.finalbody) or z.handlers and all(always(h.body) for h in z.handlers):
                    return True
            elif name in stmt_defs(z):
                return True
        return False
    def flagged(lst):
        for z in lst:
            if name not in stmt_defs(z):
                continue
            if isinstance(z, ast.If):
                if b.state_test(z.test, [y], z) or flagged(z.body) or flagged(z.orelse):
                    return True
            elif any(flagged(getattr(z, k)) for k in ('body', 'orelse', 'finalbody') if isinstance(getattr(z, k, None), list)) or any(flagged(h.body) for h in getattr(z, 'handlers', ())):
                return True
        return False
    return any(name in stmt_defs(x) for x in y.body) and not always(y.body) and not flagged(y.body)


def guarded_import(tree, node):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try):
            if any(node is x for s in t.body + [y for h in t.handlers for y in h.body] for x in ast.walk(s)):
                return True
    return False


class LocalNames(set):
    """names local to a function; `imports` tells what its own imports bind"""

    def __init__(self, *a):
        set.__init__(self, *a)
        self.imports = {}


class Blocks(object):
    """where statements stand: the list they are in, their enclosing loops and branches"""

    def __init__(self, fn):
        self.up = {}           # id(stmt) -> (list, index, parent statement)
        self.keep = []
        self.todo = [(fn, fn)]
        self.fn = fn
        self.put(fn.body if isinstance(fn.body, list) else [], fn)

    def put(self, lst, parent):
        for i, s in enumerate(lst):
            self.up[id(s)] = (lst, i, parent)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for fld in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, fld, None), list):
                    self.put(getattr(s, fld), s)
            for h in getattr(s, 'handlers', []):
                self.up[id(h)] = (None, 0, s)
                self.put(h.body, h)
            for c in getattr(s, 'cases', []):
                self.up[id(c)] = (None, 0, s)
                self.put(c.body, c)

    def stmt_of(self, n):
        if id(n.ast) in self.up:
            return n.ast
        # the iterable of a for loop, the subject of a match
        for s in ast.walk(self.fn):
            if isinstance(s, (ast.For, ast.AsyncFor)) and s.iter is n.ast:
                return s
            if isinstance(s, ast.Match) and s.subject is n.ast:
                return s
        return None

    def handled(self, n):
        """any error of the statement is dealt with by an enclosing handler for all errors"""
        x = self.stmt_of(n)
        while x is not None and id(x) in self.up:
            lst, _, p = self.up[id(x)]
            if isinstance(p, ast.Try) and lst is p.body and any(exc_names(h) is None and not any(isinstance(y, ast.Raise) for z in h.body for y in ast.walk(z)) for h in p.handlers):
                return True
            x = p
        return False

    def loops(self, n, head):
        """the loops a node belongs to (the header counts as inside)"""
        out = []
        s = self.stmt_of(n)
        if s is None:
            return out
        if head and isinstance(s, (ast.For, ast.While, ast.AsyncFor)) and n.kind in ('iter', 'test'):
            out.append(s)
        while s is not None and id(s) in self.up:
            lst, _, p = self.up[id(s)]
            if isinstance(p, (ast.For, ast.While, ast.AsyncFor)) and lst is p.body:
                out.append(p)
            s = p if p is not self.fn else None
        return out

    def state_test(self, t, loops, at):
        """a condition on what earlier rounds did: on a counter, a flag or anything the loop carries"""
        nm = names_in(t)
        for L in loops:
            inside = set()
            for x in L.body:
                inside |= stmt_defs(x)
            if nm & (inside - self.fresh(at, L, inside)):
                return True
            if isinstance(L, (ast.For, ast.AsyncFor)):
                tg = {x.id for x in ast.walk(L.target) if isinstance(x, ast.Name)}
                if any(isinstance(c, ast.Compare) and any(isinstance(o, (ast.Name, ast.BinOp)) and names_in(o) & tg for o in [c.left] + c.comparators) for c in ast.walk(t)) or isinstance(t, ast.Name) and t.id in tg \
                        or isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name) and t.operand.id in tg:
                    return True
        return any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(t)) and bool(loops)

    def follows(self, n, name):
        """the use follows, in the same block or an inner one that is always entered, a statement that may leave the name unassigned"""
        s = self.stmt_of(n)
        if s is None:
            return False
        loops = self.loops(n, False)
        x = s
        first = True
        while x is not None and id(x) in self.up:
            lst, i, p = self.up[id(x)]
            if isinstance(p, ast.Try) and lst is not None and lst is p.finalbody or isinstance(p, ast.ExceptHandler):
                # used where an error or its handling leads
                t = p if isinstance(p, ast.Try) else self.up[id(p)][2]
                if any(name in stmt_defs(y) for y in t.body) and not (isinstance(p, ast.ExceptHandler) and p.type is None and False):
                    return True
            if lst is not None:
                for y in lst[:i]:
                    if isinstance(y, ast.If) and name in stmt_defs(y) and not self.chain_state(y, loops) or \
                            isinstance(y, (ast.Try, ast.With)) and self.try_leaves(y, name, loops) or searching(self, y, name):
                        return True
            # climbing out of a branch is climbing past a condition: stop
            if isinstance(p, (ast.With, ast.AsyncWith)) or isinstance(p, ast.Try) and lst is p.body or isinstance(p, ast.Try) and lst is p.finalbody:
                x = p
                continue
            break
        return False

    def fresh(self, at, L, inside):
        """names computed anew in this round, before `at`, from nothing that earlier rounds left"""
        before = []
        x = at
        while x is not None and id(x) in self.up:
            lst, i, p = self.up[id(x)]
            if lst is not None:
                before = lst[:i] + before
            if p is L or p is self.fn:
                break
            x = p
        out = set()
        for s in before:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and v is not None:
                d = stmt_defs(s)
                if not (names_in(v) & (inside - out)):
                    out |= d
                else:
                    out -= d
            elif not isinstance(s, (ast.Expr, ast.Pass)):
                out -= stmt_defs(s)
        return out

    def chain_state(self, y, loops):
        while True:
            if loops and self.state_test(y.test, loops, y):
                return True
            if len(y.orelse) == 1 and isinstance(y.orelse[0], ast.If):
                y = y.orelse[0]
                continue
            return False

    def try_leaves(self, y, name, loops):
        if isinstance(y, (ast.With, ast.AsyncWith)):
            return any(isinstance(z, ast.If) and name in stmt_defs(z) and not self.chain_state(z, loops) or isinstance(z, (ast.Try, ast.With)) and self.try_leaves(z, name, loops) for z in y.body)
        if not any(name in stmt_defs(z) for z in y.body + y.orelse):
            return False
        # `except: pass` around work that is not expected to fail is not decided
        return any(h.type is not None or not all(isinstance(z, ast.Pass) for z in h.body) for h in y.handlers) \
            or any(isinstance(z, ast.If) and name in stmt_defs(z) and not self.chain_state(z, loops) for z in y.body)


def short_circuit(n, name):
    """the use is behind an and/or/conditional expression of the same statement"""
    root = n.extra if n.kind == 'test' else n.ast
    for x in ast.walk(root):
        if isinstance(x, (ast.BoolOp, ast.IfExp)):
            if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return True
    return False


def in_guard(tree, node):
    """inside a try block that expects an AttributeError"""
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or 'Exception' == ast.unparse(h.type) for h in t.handlers):
            if any(node is x for s in t.body + [y for h in t.handlers for y in h.body] for x in ast.walk(s)):
                return True
    return False


def isp(x):
    return decorated(x)


def decorated(x):
    """decorators that may change the signature"""
    return any(d not in ('staticmethod', 'classmethod', 'abc.abstractmethod', 'abstractmethod') for d in x.decorators)


def sub_assigned(c, name):
    for n in ast.walk(c.node):
        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
            yield True


def percent(s):
    n = 0
    i = 0
    pat = re.compile(r'%(\((\w*)\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')
    while True:
        k = s.find('%', i)
        if k < 0:
            return n
        mm = pat.match(s, k)
        if not mm:
            return None
        if mm.group(1):
            return None
        if mm.group(6) != '%':
            n += 1
            n += (mm.group(3) == '*') + (mm.group(5) == '*')
        i = mm.end()


def bind(a, skip, call):
    """error text if the call cannot bind"""
    pos = (a.posonlyargs + a.args)[skip:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return 'takes at most %d positional arguments, %d given' % (len(pos), npos)
    names = {x.arg for x in pos[len(a.posonlyargs) - skip if len(a.posonlyargs) > skip else 0:]} | {x.arg for x in a.kwonlyargs}
    given = {x.arg for x in pos[:npos]}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and not a.kwarg:
            return 'has no argument %r' % k.arg
        if k.arg in given and not star:
            return 'gets argument %r twice' % k.arg
        given.add(k.arg)
    if star:
        return None
    nd = len(a.defaults)
    req = [x.arg for x in (a.posonlyargs + a.args)[:len(a.posonlyargs + a.args) - nd]][skip:]
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in req if x not in given]
    if miss:
        return 'argument %r is missing' % miss[0]
    return None


def own(tree):
    """nodes of a function/module without those of nested functions (lambdas and comprehensions included)"""
    body = tree.body if isinstance(tree.body, list) else [tree.body]
    todo = list(body)
    if isinstance(tree, (ast.FunctionDef, ast.AsyncFunctionDef)):
        pass
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list + n.args.defaults)
            continue
        yield n
        if isinstance(n, ast.ClassDef):
            todo.extend(x for x in n.body)
            todo.extend(n.bases + n.decorator_list)
            continue
        todo.extend(ast.iter_child_nodes(n))


def own_expr(root):
    """nodes evaluated with a statement, without nested functions and comprehension bodies that rebind names"""
    todo = [root]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


@functools.lru_cache(None)
def stmt_defs(s):
    sc = Scope('x', s, None)
    bound_here([s], sc)
    return sc.local


def defs(n):
    a = n.ast
    if n.kind in ('stmt', 'return', 'raise'):
        if isinstance(a, ast.Delete):
            return frozenset()
        return frozenset(stmt_defs(a))
    if n.kind == 'def':
        return frozenset([a.name])
    if n.kind == 'iter':
        return frozenset(x.id for x in ast.walk(a.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
    if n.kind == 'with_enter':
        return frozenset(x.id for i in a.items for x in ([y for y in ast.walk(i)]) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
    if n.kind == 'handler':
        return frozenset([a.name] if a.name else [])
    if n.kind == 'test':
        return frozenset(x.target.id for x in ast.walk(n.extra) if isinstance(x, ast.NamedExpr))
    if n.kind == 'eval':
        return frozenset(x.target.id for x in ast.walk(a) if isinstance(x, ast.NamedExpr))
    if n.kind == 'case':
        out = set()
        for x in ast.walk(a.pattern):
            nm = getattr(x, 'name', None) or getattr(x, 'rest', None)
            if nm:
                out.add(nm)
        return frozenset(out)
    return frozenset()


def expr_uses(e):
    """names loaded when evaluating e (not inside nested functions; comprehension variables excluded)"""
    out = []

    def go(x, hide):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in x.decorator_list + (x.args.defaults if not isinstance(x, ast.ClassDef) else x.bases):
                go(d, hide)
            return
        if isinstance(x, ast.Lambda):
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            h = hide | {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            go(x.generators[0].iter, hide)
            for k, g in enumerate(x.generators):
                if k:
                    go(g.iter, h)
                for i in g.ifs:
                    go(i, h)
            for z in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                go(z, h)
            return
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, (ast.Load,)) and x.id not in hide:
                out.append((x.id, x.lineno))
            return
        for c in ast.iter_child_nodes(x):
            go(c, hide)
    go(e, frozenset())
    return out


def uses(n):
    a = n.ast
    if n.kind in ('stmt', 'return', 'raise'):
        if isinstance(a, (ast.Global, ast.Nonlocal)):
            return []
        u = expr_uses(a)
        if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
            u.append((a.target.id, a.lineno))
        d = {x.target.id for x in ast.walk(a) if isinstance(x, ast.NamedExpr)}
        return [x for x in u if x[0] not in d]
    if n.kind == 'test':
        d = {x.target.id for x in ast.walk(n.extra) if isinstance(x, ast.NamedExpr)}
        return [x for x in expr_uses(n.extra) if x[0] not in d]
    if n.kind == 'eval':
        return expr_uses(a)
    if n.kind == 'with_enter':
        return [u for i in a.items for u in expr_uses(i.context_expr) if u[0] not in {x.id for j in a.items if j is not i and j.optional_vars is not None for x in ast.walk(j.optional_vars) if isinstance(x, ast.Name)}]
    if n.kind == 'def':
        return expr_uses(a) if not isinstance(a, ast.ClassDef) else [u for d in a.bases + a.decorator_list for u in expr_uses(d)]
    return []
