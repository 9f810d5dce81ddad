"""
What happens to a file that already exists: path-sensitive analysis of functions with an `overwrite`
switch.  Facts per path: does the target exist, is overwriting allowed, has the old file been removed.
Helpers of the repository are followed with the facts of the call.
"""
import ast
from ..common import Finding
from . import cfg as C
from .pypos import path, params

SAME = {'os.fspath', 'str', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'pathlib.Path', 'os.fsencode', 'os.fsdecode'}
OTHER = {'os.path.expanduser', 'os.path.expandvars', 'os.path.join', 'os.path.basename', 'os.path.dirname'}
REMOVE = {'os.unlink', 'os.remove', 'shutil.rmtree', 'os.rmdir'}
EXISTS = {'os.path.exists': 'F', 'os.path.lexists': 'F', 'os.path.isfile': 'f', 'os.path.isdir': 'd'}    # F: nothing there, f: no file there, d: no directory there
LIMIT = 60000


class Undecided(Exception):
    pass


class St(object):
    """env: local name -> ('t', tag) the target | ('ow',) the switch | ('b', expr) a condition | ('c', value); facts: tag -> 'T'/'F'/'?'; ow: 'T'/'F'/'?'; touched: the old file was destroyed"""
    __slots__ = ('env', 'facts', 'ow', 'touched')

    def __init__(self, env, facts, ow, touched):
        self.env, self.facts, self.ow, self.touched = env, facts, ow, touched

    def key(self):
        return (tuple(sorted((k, v if v[0] != 'b' else ('b', id(v[1]))) for k, v in self.env.items())), tuple(sorted(self.facts.items())), self.ow, self.touched)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def copy(self, **kw):
        s = St(dict(self.env), dict(self.facts), self.ow, self.touched)
        for k, v in kw.items():
            setattr(s, k, v)
        return s


class Over(object):
    def __init__(self, repo):
        self.repo = repo
        self.findings = {}
        self.sinks = set()
        self.steps = 0
        self.seen_late = set()
        self.top = None

    def name(self, f, fn):
        r = self.repo.dotted(f.mod, fn)
        if r is not None and r[0] in ('ext', 'builtin'):
            return r[1]
        return None

    def callee(self, f, c):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self' and f.cls is not None:
            for k in self.repo.mro(f.cls)[0]:
                if fn.attr in k.methods:
                    g = k.methods[fn.attr][-1] if len(k.methods[fn.attr]) == 1 else None
                    return g, g is not None and not g.is_static
            return None, False
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and path(fn.value.func) == 'super' and f.cls is not None:
            for k in self.repo.mro(f.cls)[0][1:]:
                if fn.attr in k.methods:
                    return k.methods[fn.attr][-1], True
            return None, False
        r = self.repo.dotted(f.mod, fn)
        if r is not None and r[0] == 'func':
            return r[1], False
        if r is not None and r[0] == 'umethod':
            return r[1], False
        if r is not None and r[0] == 'class':
            g = self.repo.method(r[1], '__init__')
            return g, True
        if isinstance(fn, ast.Name):
            for g in f.mod.funcs:
                if g.name == fn.id and g.parent is f:
                    return g, False
        return None, False

    # ------------------------------------------------------------ values
    def val(self, f, st, e):
        if isinstance(e, ast.Name):
            return st.env.get(e.id)
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, ast.Attribute):
            p = path(e)
            return st.env.get(p) if p else None
        if isinstance(e, ast.Call):
            nm = self.name(f, e.func)
            if nm in SAME and e.args:
                return self.val(f, st, e.args[0])
            if nm == 'bool' and e.args:
                return self.val(f, st, e.args[0])
            if nm in OTHER:
                for a in e.args:
                    v = self.val(f, st, a)
                    if v is not None and v[0] == 't' and v[1].count('/') < 4:
                        return ('t', v[1] + '/' + nm)
            return None
        if isinstance(e, (ast.JoinedStr, ast.BinOp)):
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and (st.env.get(n.id) or ('',))[0] == 't' and st.env[n.id][1].count('/') < 4:
                    return ('t', st.env[n.id][1] + '/derived')
        return None

    def exists_test(self, f, st, e):
        """(tag whose existence e tests, what its failing proves)"""
        if isinstance(e, ast.Call):
            nm = self.name(f, e.func)
            if nm in EXISTS and e.args:
                v = self.val(f, st, e.args[0])
                return (v[1], EXISTS[nm]) if v is not None and v[0] == 't' else None
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('exists', 'is_file', 'is_dir'):
                v = self.val(f, st, e.func.value)
                return (v[1], {'exists': 'F', 'is_file': 'f', 'is_dir': 'd'}[e.func.attr]) if v is not None and v[0] == 't' else None
        return None

    def refine(self, f, st, t, val):
        """states in which test t has this value"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(f, st, t.operand, not val)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == val
            if conj:
                out = [st]
                for v in t.values:
                    out = [z for s in out for z in self.refine(f, s, v, val)]
                return out
            out, pre = [], [st]
            for v in t.values:
                out += [z for s in pre for z in self.refine(f, s, v, val)]
                pre = [z for s in pre for z in self.refine(f, s, v, not val)]
            return out
        if isinstance(t, ast.Constant):
            return [st] if bool(t.value) == val else []
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (True, False) \
                and isinstance(t.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            same = isinstance(t.ops[0], (ast.Is, ast.Eq))
            want = bool(t.comparators[0].value) if same == val else not bool(t.comparators[0].value)
            return self.refine(f, st, t.left, want)
        tag = self.exists_test(f, st, t)
        if tag is not None:
            tag, neg = tag
            cur = st.facts.get(tag, '?')
            if val and cur == 'F' or not val and cur == 'T' and neg == 'F' or val and cur == neg:
                return []
            s = st.copy()
            if val:
                s.facts[tag] = 'T'
            elif cur != 'F':
                s.facts[tag] = 'F' if cur in ('f', 'd') and cur != neg else neg
            return [s]
        v = self.val(f, st, t)
        if v is not None:
            if v[0] == 'ow':
                w = 'T' if val else 'F'
                return [] if st.ow not in ('?', w) else [st.copy(ow=w)]
            if v[0] == 'c':
                return [st] if bool(v[1]) == val else []
            if v[0] == 'b':
                return self.refine(f, st, v[1], val)
        return [st]

    # ------------------------------------------------------------ effects of calls
    def report(self, f, node, rule, what):
        k = (rule, self.top.qual, self.top.mod.rel)
        if k not in self.findings:
            self.findings[k] = Finding(rule, '%s.%s' % (self.top.mod.name, self.top.qual), '%s:%d' % (f.mod.rel, node.lineno), what)

    def calls(self, f, st, e, depth):
        """[(state after, states at exceptions)] of evaluating the calls in e, in order"""
        outs, exc = [st], [st]
        for c in order(e):
            nxt = []
            for s in outs:
                o, x = self.call(f, s, c, depth)
                nxt += o
                exc += x
            outs = uniq(nxt)
        return outs, uniq(exc)

    def destroy(self, f, st, tag, c, how):
        self.sinks.add((f.mod.rel, c.lineno))
        if self.scratch(f, tag, c):
            return
        if st.facts.get(tag, '?') not in ('F', 'f') and st.ow != 'T':
            self.report(f, c, 'existing-file-destroyed', '%s on a path where the file may exist and overwriting was not asked for' % how)

    def scratch(self, f, tag, c):
        """a file named after the target that is later moved over it"""
        if '/' not in tag or not c.args:
            return False
        k = ast.unparse(c.args[0])
        return any(isinstance(n, ast.Call) and n is not c and (self.name(f, n.func) or '') in ('os.replace', 'os.rename', 'shutil.move') and n.args and ast.unparse(n.args[0]) == k for n in ast.walk(f.node))

    def call(self, f, st, c, depth):
        self.steps += 1
        if self.steps > LIMIT:
            raise RuntimeError('too many paths')
        nm = self.name(f, c.func)
        a0 = self.val(f, st, c.args[0]) if c.args else None
        kw = {k.arg: k.value for k in c.keywords}
        if a0 is None and not c.args:
            for k in ('name', 'filename', 'file', 'path', 'fileobj'):
                if k in kw:
                    a0 = self.val(f, st, kw[k])
        tag = a0[1] if a0 is not None and a0[0] == 't' else None
        meth = c.func.attr if isinstance(c.func, ast.Attribute) else None
        if tag is None and meth in ('unlink', 'rmdir', 'open', 'write_text', 'write_bytes', 'touch'):
            v = self.val(f, st, c.func.value)
            if v is not None and v[0] == 't':
                tag = v[1]
                nm = {'unlink': 'os.unlink', 'rmdir': 'os.rmdir', 'open': 'open', 'write_text': 'open', 'write_bytes': 'open', 'touch': None}[meth]
                c2mode = c.args[0] if meth == 'open' and c.args else ast.Constant('w') if meth.startswith('write') else None
                if nm == 'open':
                    return self.opened_e(f, st, tag, c, c2mode if c2mode is not None else kw.get('mode'))
        if tag is not None:
            if nm in REMOVE:
                self.destroy(f, st, tag, c, 'the file is removed')
                ok = st.copy(touched=True if st.facts.get(tag, '?') != 'F' else st.touched)
                quiet = 'ignore_errors' in kw and not (isinstance(kw['ignore_errors'], ast.Constant) and not kw['ignore_errors'].value) or \
                    (nm == 'shutil.rmtree' and len(c.args) > 1 and not (isinstance(c.args[1], ast.Constant) and not c.args[1].value))
                if not quiet:
                    ok.facts[tag] = 'F'
                return [ok], [st]
            if nm in ('os.rename', 'os.replace', 'shutil.move', 'os.truncate'):
                self.destroy(f, st, tag, c, 'the file is moved away')
                ok = st.copy(touched=True)
                ok.facts[tag] = 'F'
                return [ok], [st]
            if nm in ('open', 'io.open', 'gzip.open', 'codecs.open', 'builtins.open') or (nm or '').endswith('fits.open'):
                mode = c.args[1] if len(c.args) > 1 else None
                return self.opened_e(f, st, tag, c, mode if mode is not None else kw.get('mode'))
            if (nm or '').endswith('tables.table') and (len(c.args) > 1 or 'tabledesc' in kw):
                return self.opened(f, st, tag, c, 'a')
        # destinations given as the second argument
        if nm in ('os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2') and len(c.args) > 1:
            v = self.val(f, st, c.args[1])
            if v is not None and v[0] == 't':
                self.destroy(f, st, v[1], c, 'the file is replaced')
                ok = st.copy(touched=True if st.facts.get(v[1], '?') != 'F' else st.touched)
                ok.facts[v[1]] = 'F'
                return [ok], [st]
        if meth == 'writeto' and tag is not None:
            o = self.val(f, st, kw['overwrite']) if 'overwrite' in kw else ('c', False)
            if o is not None and o[0] == 'ow' or (o is not None and o[0] == 'c' and not o[1]):
                out = []
                for w in ('T', 'F') if o[0] == 'ow' and st.ow == '?' else (st.ow if o[0] == 'ow' else 'F',):
                    s = st.copy(ow=w) if o[0] == 'ow' else st.copy()
                    s.facts[tag] = 'F'
                    out.append(s)
                return out, [st]
            self.destroy(f, st, tag, c, 'the file is written')
            s = st.copy()
            s.facts[tag] = 'F'
            return [s], [st]
        g, bound = self.callee(f, c)
        if g is not None:
            if st.touched:
                self.late(f, st, g, c)
            args = self.bind(f, st, g, c, bound)
            if depth < 4 and any(v is not None and v[0] in ('t', 'ow', 'c', 'b') for v in args.values()) and any(v is not None and v[0] in ('t', 'ow') for v in args.values()):
                s0 = st.copy(env={k: v for k, v in args.items() if v is not None})
                n, x = self.run(g, s0, depth + 1)
                back = [z.copy(env=dict(st.env)) for z in n]
                xb = [z.copy(env=dict(st.env)) for z in x]
                return uniq(back), uniq(xb)
        return [st], [st]

    def late(self, f, st, g, c):
        """a repository function that reports errors runs after the old file is gone"""
        if raises(self.repo, g):
            self.report(f, c, 'checked-too-late', '%s, which can report an error, runs after the existing file has been destroyed' % g.name)

    def opened_e(self, f, st, tag, c, e):
        if e is None:
            return [st], [st]
        if isinstance(e, ast.IfExp):
            o, x = [], []
            for v, b in ((True, e.body), (False, e.orelse)):
                for s in self.refine(f, st, e.test, v):
                    o2, x2 = self.opened_e(f, s, tag, c, b)
                    o += o2
                    x += x2
            return o, x
        v = self.val(f, st, e)
        if v is not None and v[0] == 'c' and isinstance(v[1], str) and v[1]:
            return self.opened(f, st, tag, c, v[1])
        raise Undecided('mode of %s' % ast.unparse(c))

    def opened(self, f, st, tag, c, mode):
        if mode[0] in ('r',) and '+' not in mode:
            return [st], [st]
        if mode in ('readonly', 'denywrite', 'copyonwrite'):
            return [st], [st]
        if mode[0] == 'x' or mode == 'ostream':
            s = st.copy()
            s.facts[tag] = 'F'
            return [s], [st]
        if mode[0] == 'w':
            self.destroy(f, st, tag, c, 'the file is opened for writing')
            s = st.copy(touched=True if st.facts.get(tag, '?') != 'F' else st.touched)
            s.facts[tag] = 'F'
            return [s], [st]
        # append and update: the old content stays
        self.sinks.add((f.mod.rel, c.lineno))
        if self.scratch(f, tag, c):
            return [st], [st]
        ok = st.copy()
        ok.facts[tag] = 'F'
        if st.facts.get(tag, '?') not in ('F', 'f'):
            if st.ow != 'T':
                self.report(f, c, 'existing-file-destroyed', 'the file is opened for changing on a path where it may exist and overwriting was not asked for')
            else:
                self.report(f, c, 'old-content-kept', 'the file is opened for appending on a path where the old file may not have been removed')
        return [ok], [st]

    def bind(self, f, st, g, c, bound):
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if bound and ps:
            ps = ps[1:]
        elif g.cls is not None and not g.is_static and isinstance(c.func, ast.Attribute) and not bound:
            pass
        for p, v in zip(ps, c.args):
            out[p] = self.arg(f, st, v)
        for k in c.keywords:
            if k.arg:
                out[k.arg] = self.arg(f, st, k.value)
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in out and isinstance(d, ast.Constant):
                out[p.arg] = ('c', d.value)
        return out

    def arg(self, f, st, e):
        v = self.val(f, st, e)
        return v if v is None or v[0] != 'b' else None

    # ------------------------------------------------------------ one function
    def run(self, f, st0, depth=0):
        g = C.CFG(f.node)
        me = self

        def tr(n, states):
            a = n.ast
            if n.kind in ('entry', 'exit', 'rexit', 'finally', 'dispatch', 'jump', 'def', 'case', 'join', 'pass', 'with_exit'):
                return states, states
            if n.kind == 'handler':
                t = a.type if isinstance(a, ast.ExceptHandler) else None
                if t is not None and path(t) == 'FileNotFoundError':
                    out = []
                    for s in states:
                        s = s.copy()
                        for k in list(s.facts):
                            s.facts[k] = 'F'
                        out.append(s)
                    return frozenset(out), frozenset(out)
                return states, states
            es = [n.extra] if n.kind == 'test' else [it.context_expr for it in a.items] if n.kind == 'with_enter' else [a.iter] if n.kind == 'iter' and hasattr(a, 'iter') else [a]
            outs, exc = list(states), list(states)
            for e in es:
                nxt = []
                for s in outs:
                    o, x = me.calls(f, s, e, depth)
                    nxt += o
                    exc += x
                outs = uniq(nxt)
            if isinstance(a, ast.Raise):
                return frozenset(outs), frozenset(outs)
            if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
                ts = a.targets if isinstance(a, ast.Assign) else [a.target]
                nxt = []
                for s in outs:
                    s = s.copy()
                    v = me.val(f, s, a.value)
                    if v is None and (isinstance(a.value, (ast.BoolOp, ast.Compare)) or (isinstance(a.value, ast.UnaryOp) and isinstance(a.value.op, ast.Not)) or me.exists_test(f, s, a.value)):
                        v = ('b', a.value)
                    for t in ts:
                        p = path(t)
                        if p is None:
                            for z in ast.walk(t):
                                if isinstance(z, ast.Name):
                                    s.env.pop(z.id, None)
                        elif v is None:
                            s.env.pop(p, None)
                        else:
                            s.env[p] = v
                            if v[0] == 't':
                                s.facts.setdefault(v[1], '?')
                    nxt.append(s)
                outs = nxt
            if n.kind == 'stmt' and isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
                nxt = []
                for s in outs:
                    s = s.copy()
                    v = s.env.pop(a.target.id, None)
                    if v is not None and v[0] == 't' and v[1].count('/') < 4:
                        s.env[a.target.id] = ('t', v[1] + '/derived')
                        s.facts[v[1] + '/derived'] = '?'
                    nxt.append(s)
                outs = nxt
            return frozenset(uniq(outs)), frozenset(uniq(exc))

        def edge(n, l, states):
            if n.kind == 'test' and l in ('t', 'f'):
                r = frozenset(z for s in states for z in me.refine(f, s, n.extra, l == 't'))
                return r or None
            return states
        IN = C.forward(g, frozenset([st0]), tr, lambda a, b: a | b, edge)
        return list(IN.get(g.exit.id, ())), list(IN.get(g.rexit.id, ()))

    # ------------------------------------------------------------ verdicts
    def check(self, f, target, switch):
        self.top = f
        self.steps = 0
        env = {target: ('t', 'P'), switch: ('ow',)}
        st = St(env, {'P': '?'}, '?', False)
        n, x = self.run(f, st)
        where = f.node
        for s in n:
            if not any(v in ('F', 'd') for k, v in s.facts.items() if not k.endswith(('basename', 'dirname'))):
                if s.ow != 'T':
                    self.report(f, where, 'existing-file-not-refused', 'the call can succeed although the file may exist and overwriting was not asked for')
                else:
                    self.report(f, where, 'old-content-kept', 'the call can succeed although the old file may not have been removed')
        return n, x


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        k = x.key()
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def order(e):
    if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return
    for c in ast.iter_child_nodes(e):
        for y in order(c):
            yield y
    if isinstance(e, ast.Call):
        yield e


_R = {}


def raises(repo, g, depth=0):
    """the function, or one of the same module or object it calls, contains a raise statement"""
    k = id(g.node)
    if k in _R:
        return _R[k]
    _R[k] = False
    r = any(isinstance(n, ast.Raise) for n in ast.walk(g.node))
    if not r and depth < 4:
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call):
                t = None
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'self' and g.cls is not None:
                    t = repo.method(g.cls, c.func.attr)
                elif isinstance(c.func, ast.Name):
                    q = repo.dotted(g.mod, c.func)
                    t = q[1] if q is not None and q[0] == 'func' else None
                if t is not None and raises(repo, t, depth + 1):
                    r = True
                    break
    _R[k] = r
    return r
