"""
Control-flow graphs of Python functions, with exception edges.  `finally` bodies and `with` exits
are instantiated once per way of leaving them, so a path through the graph is a possible execution
order.  Nodes are single statements or tests; expressions inside a node are not split.
"""
import ast


class Node(object):
    __slots__ = ('id', 'kind', 'ast', 'succ', 'pred', 'extra')

    def __init__(self, i, kind, a, extra=None):
        self.id, self.kind, self.ast, self.extra = i, kind, a, extra
        self.succ, self.pred = [], []          # (node, label); labels: n t f x

    @property
    def line(self):
        return getattr(self.ast, 'lineno', 0)

    def __repr__(self):
        return '<%d %s %s>' % (self.id, self.kind, self.line)


def may_raise(node, kind):
    if kind in ('entry', 'exit', 'rexit', 'join', 'pass', 'finally', 'dispatch', 'handler'):
        return False
    if kind in ('iter', 'with_enter', 'raise'):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Name):
        return True          # a bare name is evaluated to see whether it exists
    if kind == 'with_exit':
        return False
    for n in ast.walk(node) if node is not None else ():
        if isinstance(n, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom,
                          ast.Await, ast.Yield, ast.YieldFrom, ast.Compare, ast.UnaryOp, ast.JoinedStr, ast.Starred, ast.Delete)):
            return True
        if isinstance(n, (ast.Assign,)) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            return True
    return False


BROAD = {'Exception', 'BaseException'}


class CFG(object):
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.entry = self.new('entry', fn)
        self.exit = self.new('exit', fn)
        self.rexit = self.new('rexit', fn)
        # context stack entries: ('loop', brk, cont) | ('try', dispatch) | ('fin', stmts, depth) | ('with', stmt)
        body = fn.body if not isinstance(fn, ast.Lambda) else [ast.Return(value=fn.body, lineno=fn.lineno, col_offset=0)]
        end = self.seq(body, [(self.entry, 'n')], ())
        self.link(end, self.exit)
        for n in self.nodes:
            for s, l in n.succ:
                s.pred.append((n, l))

    def new(self, kind, a, extra=None):
        n = Node(len(self.nodes), kind, a, extra)
        self.nodes.append(n)
        return n

    def link(self, ends, node):
        for e, l in ends:
            if (node, l) not in e.succ:
                e.succ.append((node, l))

    # leaving context up to (not including) index k of ctx: run finallys/with exits
    def unwind(self, ends, ctx, k):
        for j in range(len(ctx) - 1, k - 1, -1):
            c = ctx[j]
            if c[0] == 'fin':
                ends = self.seq(c[1], ends, ctx[:j])
            elif c[0] == 'with':
                w = self.new('with_exit', c[1])
                self.link(ends, w)
                ends = [(w, 'n')]
        return ends

    def throw(self, ends, ctx):
        """route an exception raised in ctx"""
        for j in range(len(ctx) - 1, -1, -1):
            c = ctx[j]
            if c[0] == 'try':
                self.link(self._lab(self.unwind(ends, ctx, j + 1)), c[1])
                return
            if c[0] == 'fin' or c[0] == 'with':
                # one shared copy of the cleanup for exceptions raised at this level
                cache = c[2]
                if 'x' not in cache:
                    if c[0] == 'with':
                        h = self.new('with_exit', c[1], 'exc')
                        cache['x'] = h
                        self.throw([(h, 'x')], ctx[:j])
                        if c[2].get('swallow'):
                            cache['after'].append((h, 'n'))
                    else:
                        h = self.new('finally', c[3])
                        cache['x'] = h
                        e = self.seq(c[1], [(h, 'n')], ctx[:j])
                        if e:
                            k = self.new('join', c[3])
                            self.link(e, k)
                            self.throw([(k, 'x')], ctx[:j])
                self.link(ends, cache['x'])
                return
        self.link(ends, self.rexit)

    def _lab(self, ends):
        return ends

    def stmt_node(self, kind, a, ends, ctx, extra=None):
        n = self.new(kind, a, extra)
        self.link(ends, n)
        if may_raise(extra if kind == 'test' else a, kind) and kind not in ('def',):
            self.throw([(n, 'x')], ctx)
        return n

    def seq(self, stmts, ends, ctx):
        for s in stmts:
            ends = self.stmt(s, ends, ctx)
        return ends

    def stmt(self, s, ends, ctx):
        if isinstance(s, ast.If):
            t = self.stmt_node('test', s, ends, ctx, s.test)
            const = self.const(s.test)
            a = self.seq(s.body, [(t, 't')] if const is not False else [], ctx)
            b = self.seq(s.orelse, [(t, 'f')] if const is not True else [], ctx)
            return a + b
        if isinstance(s, ast.While):
            t = self.stmt_node('test', s, ends, ctx, s.test)
            after = []
            c2 = ctx + (('loop', after, t),)
            const = self.const(s.test)
            body = self.seq(s.body, [(t, 't')] if const is not False else [], c2)
            self.link(body, t)
            out = self.seq(s.orelse, [(t, 'f')] if const is not True else [], ctx)
            return out + after
        if isinstance(s, (ast.For, ast.AsyncFor)):
            pre = self.stmt_node('eval', s.iter, ends, ctx)
            t = self.stmt_node('iter', s, [(pre, 'n')], ctx)
            after = []
            c2 = ctx + (('loop', after, t),)
            body = self.seq(s.body, [(t, 't')], c2)
            self.link(body, t)
            out = self.seq(s.orelse, [(t, 'f')], ctx)
            return out + after
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            c0 = ctx
            if s.finalbody:
                c0 = ctx + (('fin', s.finalbody, {}, s),)
            if s.handlers:
                disp = self.new('dispatch', s)
                c1 = c0 + (('try', disp),)
            else:
                disp, c1 = None, c0
            body = self.seq(s.body, ends, c1)
            body = self.seq(s.orelse, body, c0)
            out = list(body)
            if disp is not None:
                caught = False
                for h in s.handlers:
                    hn = self.new('handler', h)
                    self.link([(disp, 'n')], hn)
                    out += self.seq(h.body, [(hn, 'n')], c0)
                    if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in BROAD):
                        caught = True
                        break
                if not caught:
                    self.throw([(disp, 'x')], c0)
            if s.finalbody:
                out = self.seq(s.finalbody, out, ctx)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = self.stmt_node('with_enter', s, ends, ctx)
            d = {'after': []}
            d['swallow'] = any(isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).endswith('suppress') for i in s.items)
            c1 = ctx + (('with', s, d),)
            body = self.seq(s.body, [(n, 'n')], c1)
            w = self.new('with_exit', s)
            self.link(body, w)
            return ([(w, 'n')] if body else []) + d['after']
        if isinstance(s, ast.Return):
            n = self.stmt_node('return', s, ends, ctx)
            self.link(self.unwind([(n, 'n')], ctx, 0), self.exit)
            return []
        if isinstance(s, ast.Raise):
            self.stmt_node('raise', s, ends, ctx)
            return []
        if isinstance(s, (ast.Break, ast.Continue)):
            n = self.new('jump', s)
            self.link(ends, n)
            for j in range(len(ctx) - 1, -1, -1):
                if ctx[j][0] == 'loop':
                    e = self.unwind([(n, 'n')], ctx, j + 1)
                    if isinstance(s, ast.Break):
                        ctx[j][1].extend(e)
                    else:
                        self.link(e, ctx[j][2])
                    break
            return []
        if isinstance(s, ast.Match):
            t = self.stmt_node('eval', s.subject, ends, ctx)
            out = [(t, 'f')]
            for c in s.cases:
                k = self.new('case', c)
                self.link([(t, 'n')], k)
                out += self.seq(c.body, [(k, 'n')], ctx)
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            n = self.new('def', s)
            self.link(ends, n)
            return [(n, 'n')]
        n = self.stmt_node('stmt', s, ends, ctx)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = ast.unparse(s.value.func)
            if f in ('sys.exit', 'os._exit', 'exit', 'quit'):
                return []
        return [(n, 'n')]

    @staticmethod
    def const(t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None

    def reach(self):
        seen, todo = set(), [self.entry]
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            todo.extend(s for s, _ in n.succ)
        return seen


class Module(object):
    """wrapper giving a module body the shape of a function"""

    def __init__(self, tree):
        self.body = tree.body
        self.lineno = 1


def forward(cfg, init, transfer, join, edge=None):
    """worklist forward analysis.  transfer(node, state) -> (normal out, exceptional out); edge(node, label, state) refines (None = infeasible)."""
    IN = {cfg.entry.id: init}
    work = [cfg.entry]
    inw = {cfg.entry.id}
    n_it = 0
    while work:
        n = work.pop(0)
        inw.discard(n.id)
        n_it += 1
        if n_it > 400000:
            raise RuntimeError('no fixpoint in %s' % getattr(cfg.fn, 'name', '?'))
        st = IN[n.id]
        o, x = transfer(n, st)
        for s, l in n.succ:
            v = x if l == 'x' else o
            if v is None:
                continue
            if edge is not None:
                v = edge(n, l, v)
                if v is None:
                    continue
            old = IN.get(s.id)
            new = v if old is None else join(old, v)
            if old is None or new != old:
                IN[s.id] = new
                if s.id not in inw:
                    work.append(s)
                    inw.add(s.id)
    return IN
