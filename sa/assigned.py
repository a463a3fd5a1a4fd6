"""Definite assignment of local variables, path by path.  A path carries the truth values of the conditions it went through; conditions on the
same expression are decided together over representative values, so that paths which no value can take are dropped.  An unassigned read
is definite when its path is feasible beyond doubt, and open when it relies on a loop without rounds, on which statement of a try
block raises, or on conditions whose relation is not known."""
import ast
from .program import _flatten

LIMIT = 400
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from target_names(x)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def bound_names(body, args=None):
    """(local names, names declared global or nonlocal) of a function body."""
    out, other = set(), set()
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            out.add(a.arg)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMPS):
            for g in n.generators[:1]:
                go(g.iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            other.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out - other, other


# ------------------------------------------------------------------ conditions
FLIP = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
OTHER = ('\0other', object(), 987654.25, -987654.25, ('\0',))


def literal(e):
    try:
        return True, ast.literal_eval(e)
    except Exception:
        return False, None


def frozen(v):
    return v if isinstance(v, (str, bytes, int, float, complex, bool, type(None))) else repr(v)


def atom(e):
    """(key, constraint) of a simple condition; key is the text of the tested expression."""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, o, r = e.left, type(e.ops[0]), e.comparators[0]
        okl, vl = literal(l)
        okr, vr = literal(r)
        if okl and not okr and o in FLIP:
            l, o, r, okr, vr = r, FLIP[o], l, True, vl
        if okr:
            if o in (ast.Eq, ast.Is):
                return ast.unparse(l), ('==', frozen(vr)), True
            if o in (ast.NotEq, ast.IsNot):
                return ast.unparse(l), ('==', frozen(vr)), False
            if o in (ast.In, ast.NotIn) and isinstance(vr, (tuple, list, set, str, dict)):
                return ast.unparse(l), ('in', vr if isinstance(vr, str) else tuple(vr)), o is ast.In
            if o in (ast.Gt, ast.GtE, ast.Lt, ast.LtE):
                return ast.unparse(l), ({ast.Gt: '>', ast.GtE: '>=', ast.Lt: '<', ast.LtE: '<='}[o], vr), True
        if o in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            a, b = sorted((ast.unparse(l), ast.unparse(r)))
            return f'{a} == {b}', ('bool',), o in (ast.Eq, ast.Is)
        if o in (ast.In, ast.NotIn):
            return f'{ast.unparse(l)} in {ast.unparse(r)}', ('bool',), o is ast.In
        if o in (ast.Lt, ast.GtE):          # a < b is the opposite of a >= b
            return f'{ast.unparse(l)} < {ast.unparse(r)}', ('bool',), o is ast.Lt
        if o in (ast.Gt, ast.LtE):
            return f'{ast.unparse(r)} < {ast.unparse(l)}', ('bool',), o is ast.Gt
    return ast.unparse(e), ('bool',), True


def holds(c, v):
    try:
        if c[0] == '==':
            return type(v) is type(c[1]) and v == c[1] or isinstance(v, (int, float)) and isinstance(c[1], (int, float)) and v == c[1]
        if c[0] == 'in':
            return v in c[1]
        if c[0] == 'bool':
            return bool(v)
        return {'>': v > c[1], '>=': v >= c[1], '<': v < c[1], '<=': v <= c[1]}[c[0]]
    except TypeError:
        return False


def candidates(cs):
    out = [None, True, False, 0, '', ()] + list(OTHER)
    nums = []
    for c in cs:
        if len(c) < 2:
            continue
        vs = list(c[1]) if c[0] == 'in' else [c[1]]
        for v in vs:
            out.append(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                nums.append(v)
    nums = sorted(set(nums))
    for a in nums:
        out += [a - 1, a + 1, a - 0.5, a + 0.5]
    for a, b in zip(nums, nums[1:]):
        out.append((a + b) / 2)
    return out


class State:
    __slots__ = ('vars', 'facts', 'weak')

    def __init__(self, vars, facts=(), weak=frozenset()):
        self.vars, self.facts, self.weak = vars, facts, weak       # assigned names; ((key, constraint, truth), ...); names possibly unassigned

    def key(self):
        return (self.vars, self.facts, self.weak)

    def bind(self, names):
        names = set(names)
        if not names:
            return self
        facts = tuple(f for f in self.facts if not (f[3] & names))
        return State(self.vars | names, facts, self.weak - names)

    def unbind(self, names):
        return State(self.vars - set(names), self.facts, self.weak - set(names))

    def assume(self, key, c, truth, names):
        f = (key, c, truth, names)
        if f in self.facts:
            return self
        same = [x for x in self.facts if x[0] == key] + [f]
        if len(same) > 1 or c[0] != 'bool':
            cs = [x[1] for x in same]
            if not any(all(holds(x[1], v) == x[2] for x in same) for v in candidates(cs)):
                return None
        return State(self.vars, self.facts + (f,), self.weak)

    def doubtful(self):
        """Different conditions about the same names may depend on each other, and alternatives may be all there are."""
        excluded = [a[0] for a in self.facts if a[1][0] in ('==', 'in') and a[1][1] is not None and not a[2]]
        if len(excluded) > len(set(excluded)):
            return True
        for i, a in enumerate(self.facts):
            for b in self.facts[i + 1:]:
                if a[0] != b[0] and a[3] & b[3] and not (element(a, b) or element(b, a)):
                    return True
        return False


def element(a, b):
    """Being unequal to one element of a collection does not depend on its truth, nor on being among its elements."""
    if a[1] == b[1] == ('bool',) and a[2] and b[2] and a[0].endswith(' in ' + b[0]):
        return True
    if a[1] != ('bool',) or a[2] or ' == ' not in a[0]:
        return False
    try:
        e = ast.parse(a[0], mode='eval').body
    except SyntaxError:
        return False
    if not isinstance(e, ast.Compare) or len(e.ops) != 1 or not isinstance(e.ops[0], ast.Eq):
        return False
    for x, y in ((e.left, e.comparators[0]), (e.comparators[0], e.left)):
        if isinstance(y, ast.Subscript) and literal(y.slice)[0] and not names_of(x) & names_of(y):
            c = ast.unparse(y.value)
            if b[1] == ('bool',) and b[2] and b[0] in (c, f'{ast.unparse(x)} in {c}'):
                return True
    return False


def names_of(e):
    return frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name))


def flags(body, params):
    """(names bound once, to a condition, with the condition; how often each name is bound)."""
    count = {p: 1 for p in params}
    values = {}
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                count[x.id] = count.get(x.id, 0) + 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name)):
                values[x.targets[0].id] = x.value
    return {n: v for n, v in values.items() if count.get(n) == 1 and n not in names_of(v) and n not in params}, count


def dedupe(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    return list(out.values())


def can_raise(s):
    for x in ast.walk(s):
        if isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import, ast.ImportFrom, ast.Raise, ast.For, ast.Assert, ast.With, ast.Compare, ast.Starred, ast.Await)):
            return True
        if isinstance(x, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in x.targets):
            return True
    return False


class Flow:
    def __init__(self, fnode):
        self.fnode = fnode
        body = fnode.body if isinstance(fnode.body, list) else [ast.Return(fnode.body)]
        self.locals, self.other = bound_names(body, fnode.args)
        self.reads = {}            # (lineno, col, name) -> 'definite' | 'open'
        self.total = 0
        self.seen = set()
        self.merged = False
        a = fnode.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        self.flags, self.bindings = flags(body, params)
        self.opening = set()
        self.breaks, self.continues = [], []
        self.raises = []           # stacks of states before statements that may raise
        end = self.block(body, [State(frozenset(params))])

    def note(self, e, states):
        k = (e.lineno, e.col_offset, e.id)
        if k not in self.seen:
            self.seen.add(k)
        for s in states:
            if e.id in s.vars:
                if e.id in s.weak:
                    self.reads.setdefault(k, ('open', e, s))
                continue
            if self.merged or s.doubtful():
                self.reads.setdefault(k, ('open', e, s))
            elif self.reads.get(k, ('',))[0] != 'definite':
                self.reads[k] = ('definite', e, s)

    # -------------------------------------------------- expressions
    def expr(self, e, states):
        """Reads of an expression; returns the states after it (walrus targets bound)."""
        if e is None or not states:
            return states
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.note(e, states)
            return states
        if isinstance(e, ast.BoolOp):
            out, cur = [], states
            for i, v in enumerate(e.values):
                t, f = self.cond(v, cur)
                if i == len(e.values) - 1:
                    out += t + f
                elif isinstance(e.op, ast.And):
                    out += f
                    cur = t
                else:
                    out += t
                    cur = f
            return self.strip(states, out)
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, states)
            return self.strip(states, self.expr(e.body, t) + self.expr(e.orelse, f))
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states)
            return [s.bind([e.target.id]) for s in states]
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                states = self.expr(d, states)
            return states
        if isinstance(e, COMPS):
            inner = set()
            own = set()
            for g in e.generators:
                own |= set(target_names(g.target))
            hidden = own & self.locals
            cur = states
            for i, g in enumerate(e.generators):
                if i == 0:
                    cur = self.expr(g.iter, cur)
                    work = [State(s.vars | own, s.facts, s.weak - own) for s in cur]
                else:
                    work = self.expr(g.iter, work)
                for c in g.ifs:
                    work, _ = self.cond(c, work)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, work)
            walrus = {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
            return [State(s.vars | walrus, s.facts, s.weak | (walrus - s.vars)) for s in cur] if walrus else cur
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
            elif isinstance(c, ast.keyword):
                states = self.expr(c.value, states)
            elif isinstance(c, (ast.comprehension, ast.FormattedValue)):
                states = self.expr(c, states)
        return states

    def strip(self, before, after):
        """States after an expression whose inner conditions do not matter any more (unless they bound names)."""
        known = {s.key() for s in before}
        if all(any(s.vars == b.vars for b in before) for s in after):
            return before
        return dedupe(after)

    def cond(self, e, states):
        """States in which the condition is true, false."""
        if not states:
            return [], []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, states)
            return f, t
        if isinstance(e, ast.BoolOp):
            out, cur = [], states
            for v in e.values:
                t, f = self.cond(v, cur)
                if isinstance(e.op, ast.And):
                    out += f
                    cur = t
                else:
                    out += t
                    cur = f
            return (cur, dedupe(out)) if isinstance(e.op, ast.And) else (dedupe(out), cur)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts, left = [], e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [o], [r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), states)
        ok, v = literal(e)
        if ok:
            return (states, []) if v else ([], states)
        states = self.expr(e, states)
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name) and e.id in self.flags and e.id not in self.opening:
            # a condition that was given a name
            x = self.flags[e.id]
            if all(self.bindings.get(n, 0) <= 1 for n in names_of(x)):
                self.opening.add(e.id)
                reads, seen = dict(self.reads), set(self.seen)
                r = self.cond(x, states)
                self.reads, self.seen = reads, seen
                self.opening.discard(e.id)
                return r
        key, c, pos = atom(e)
        names = names_of(e)
        t, f = [], []
        for s in states:
            a = s.assume(key, c, pos, names)
            b = s.assume(key, c, not pos, names)
            if a is not None:
                t.append(a)
            if b is not None:
                f.append(b)
        return dedupe(t), dedupe(f)

    # -------------------------------------------------- statements
    def block(self, body, states):
        for s in body:
            if not states:
                break
            if self.raises and can_raise(s) and not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                self.raises[-1].append(states)
            states = dedupe(self.stmt(s, states))
            if len(states) > LIMIT:
                self.merged = True
                every = frozenset.union(*[x.vars for x in states])
                common = frozenset.intersection(*[x.vars for x in states])
                states = [State(every, (), every - common)]
        return states

    def targets(self, t, states):
        if isinstance(t, ast.Name):
            return states
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                states = self.targets(x, states)
            return states
        if isinstance(t, ast.Starred):
            return self.targets(t.value, states)
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
        # a store into an attribute or element ends what was known about it
        root = names_of(t.value) if isinstance(t, (ast.Attribute, ast.Subscript)) else frozenset()
        text = ast.unparse(t)
        return [State(s.vars, tuple(f for f in s.facts if text not in f[0]), s.weak) for s in states]

    def stmt(self, s, states):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                states = self.expr(d, states)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    states = self.expr(d, states)
            return [x.bind([s.name]) for x in states]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [x.bind([(a.asname or a.name).split('.')[0] for a in s.names]) for x in states]
        if isinstance(s, ast.Assign):
            states = self.expr(s.value, states)
            for t in s.targets:
                states = self.targets(t, states)
            return [x.bind([n for t in s.targets for n in target_names(t)]) for x in states]
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            states = self.targets(s.target, self.expr(s.value, states))
            return [x.bind(target_names(s.target)) for x in states]
        if isinstance(s, ast.AugAssign):
            states = self.expr(s.value, states)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals:
                    self.note(s.target, states)
                return [x.bind([s.target.id]) for x in states]
            return self.targets(s.target, states)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals:
                        self.note(t, states)
                    states = [x.unbind([t.id]) for x in states]
                else:
                    states = self.targets(t, states)
            return states
        if isinstance(s, ast.Return):
            self.expr(s.value, states)
            return []
        if isinstance(s, ast.Raise):
            self.expr(s.cause, self.expr(s.exc, states))
            return []
        if isinstance(s, ast.If):
            if self.raises and can_raise(s.test):
                self.raises[-1].append(states)
            t, f = self.cond(s.test, states)
            return self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, states)
            self.expr(s.msg, f)
            return t
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if self.raises and can_raise(s.iter):
                self.raises[-1].append(states)
            states = self.expr(s.iter, states)
            ok, v = literal(s.iter)
            some = ok and hasattr(v, '__len__') and len(v) > 0
            return self.loop(s, states, lambda st: [x.bind(target_names(s.target)) for x in st], some)
        if isinstance(s, ast.While):
            if self.raises and can_raise(s.test):
                self.raises[-1].append(states)
            forever, v = literal(s.test)
            return self.loop(s, states, None, forever and bool(v), forever and bool(v))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if self.raises:
                self.raises[-1].append(states)
            for i in s.items:
                states = self.expr(i.context_expr, states)
                if i.optional_vars is not None:
                    states = [x.bind(target_names(i.optional_vars)) for x in self.targets(i.optional_vars, states)]
            swallow = any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] == 'suppress' for i in s.items for x in [i.context_expr])
            if swallow:
                self.raises.append([])
                out = self.block(s.body, states)
                pts = self.raises.pop()
                return out + self.raised(pts, states)
            return self.block(s.body, states)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.try_(s, states)
        if isinstance(s, ast.Match):
            states = self.expr(s.subject, states)
            out, rest = [], states
            for c in s.cases:
                b = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                e = ast.copy_location(ast.Compare(s.subject, [ast.Eq()], [c.pattern.value]), c.pattern) if isinstance(c.pattern, ast.MatchValue) else None
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    t, f = rest, []
                elif e is not None:
                    t, f = self.cond(e, rest)
                else:
                    t, f = rest, [State(x.vars, x.facts + (('case %d' % id(c), ('bool',), False, names_of(s.subject)),), x.weak) for x in rest]
                t = [x.bind(b) for x in t]
                if c.guard is not None:
                    t, g = self.cond(c.guard, t)
                    f = f + g
                out += self.block(c.body, t)
                rest = f
            return out + rest
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1] += states
            return []
        if isinstance(s, ast.Continue):
            if self.continues:
                self.continues[-1] += states
            return []
        if isinstance(s, ast.Expr):
            return self.expr(s.value, states)
        return states

    def loop(self, s, states, head, some, forever=False):
        self.breaks.append([])
        self.continues.append([])
        first = head(states) if head else states
        if isinstance(s, ast.While) and not forever:
            t, f = self.cond(s.test, states)
            first, none = t, f
        else:
            none = [] if some else states
        outer = len(self.reads)
        one = self.block(s.body, first) + self.continues[-1]
        # a later round knows the assignments of the earlier ones, but not the conditions that held in them
        assigned = set(bound_names(s.body)[0]) | (set(target_names(s.target)) if isinstance(s, ast.For) else set())
        again = dedupe([State(x.vars, tuple(f for f in x.facts if not (f[3] & assigned)), x.weak) for x in one])
        self.continues[-1] = []
        if again:
            again = head(again) if head else self.cond(s.test, again)[0] if not forever else again
            two = self.block(s.body, again) + self.continues[-1]
        else:
            two = []
        br = self.breaks.pop()
        self.continues.pop()
        done = dedupe(one + two)
        out = []
        if not forever:
            if isinstance(s, ast.While):
                done = self.cond(s.test, done)[1]
            zero = []
            for x in none:
                # no round at all: what only the loop assigns is possibly unassigned
                new = assigned - x.vars
                zero.append(State(x.vars | new, x.facts, x.weak | new))
            out = self.block(s.orelse, dedupe(done + zero))
        return dedupe(out + br)

    def raised(self, pts, states):
        """States with which a handler starts."""
        pts = [p for p in pts if p]
        if not pts:
            return []
        every = [x for p in pts for x in p]
        last = pts[-1]
        if len(pts) == 1:
            return dedupe(every)
        # which statement raised is not known: names that a later statement may already have are only possibly unassigned
        have = frozenset.union(*[x.vars for x in last])
        return dedupe([State(x.vars | have, x.facts, x.weak | (have - x.vars)) for x in every])

    def try_(self, s, states):
        self.raises.append([])
        body = self.block(s.body, states)
        pts = self.raises.pop()
        if self.raises:
            self.raises[-1] += pts
        entry = self.raised(pts, states)
        out = self.block(s.orelse, body) if s.orelse else body
        for h in s.handlers:
            e = self.expr(h.type, entry)
            if h.name:
                e = [x.bind([h.name]) for x in e]
            after = self.block(h.body, e)
            if h.name:
                after = [x.unbind([h.name]) for x in after]
            out = out + after
        if s.finalbody:
            if not s.handlers or True:
                # the final block also runs on the way out; what it reads then is only possibly assigned
                keep = dict(self.reads)
                self.block(s.finalbody, entry)
                for k in list(self.reads):
                    if k not in keep and self.reads[k][0] == 'definite':
                        self.reads[k] = ('open',) + self.reads[k][1:]
            out = self.block(s.finalbody, dedupe(out))
        return dedupe(out)
