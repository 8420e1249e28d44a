"""Translate the repository's current .pyx sources to Python.

Cython's own parser produces the tree; this module prints it back as Python
whose C-typed reads and writes go through `cyrt` (the run-time model of C
numbers, arrays and memoryviews).  Anything the translator does not know is an
error (the check then ends inconclusive), never silently dropped.
"""
import os

from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes as N
from Cython.Compiler import ExprNodes as E


class Unsupported(Exception):
    pass


INTS = {'int', 'long', 'short', 'Py_ssize_t', 'size_t', 'char', 'ssize_t', 'bint'}
FLOATS = {'double', 'float'}


class Scope(object):
    def __init__(self, parent=None, kind='module'):
        self.types = {}
        self.parent, self.kind = parent, kind


class Translator(object):
    def __init__(self, name, src):
        self.name = name
        self.lines = []
        self.ind = 0
        self.tree = parse_from_strings(name, src)
        self.attr_types = {}        # class attribute name -> type (all cdef classes)
        self.scope = Scope()
        self.functions = []
        self.directives = {}
        self.cls = None

    def out(self, s):
        self.lines.append('    ' * self.ind + s)

    # -- types
    def type_of(self, t):
        """-> ('int', name) | ('float', name) | ('mv', elem) | None (object)"""
        if isinstance(t, N.MemoryViewSliceTypeNode):
            k = self.type_of(t.base_type_node)
            if len(t.axes) != 1:
                raise Unsupported('multi-dimensional memoryview')
            return ('mv', k)
        if isinstance(t, N.CSimpleBaseTypeNode):
            n = t.name
            if n in INTS and t.is_basic_c_type:
                sz = n
                if n == 'int' and t.longness:
                    sz = 'long'
                if not t.signed:
                    sz = 'u' + sz
                return ('int', sz)
            if n in FLOATS and t.is_basic_c_type:
                return ('float', n)
            return None
        if isinstance(t, (N.TemplatedTypeNode,)):
            return None
        raise Unsupported('type %s' % type(t).__name__)

    def decl(self, d, t):
        """Declarator -> (name, type, default expr)"""
        if isinstance(d, N.CNameDeclaratorNode):
            return d.name, t, d.default
        if isinstance(d, N.CArrayDeclaratorNode):
            name, _, _ = self.decl(d.base, t)
            return name, ('carr', t, d.dimension), None
        raise Unsupported('declarator %s' % type(d).__name__)

    def coerce(self, t, s):
        if t is None:
            return s
        k = t[0]
        if k == 'int':
            return '_rt.c_int(%s, %r)' % (s, t[1])
        if k == 'float':
            return '_rt.c_float(%s, %r)' % (s, t[1])
        if k == 'mv':
            return '_rt.mview(%s, %r)' % (s, t[1])
        raise Unsupported('coercion to %r' % (t,))

    def local_type(self, name):
        s = self.scope
        while s is not None:
            if name in s.types:
                return s.types[name]
            s = s.parent
        return None

    # -- module
    def run(self):
        self.out('import cyrt as _rt')
        self.collect_attrs(self.tree)
        self.stat(self.tree.body if hasattr(self.tree, 'body') else self.tree)
        return '\n'.join(self.lines) + '\n'

    def collect_attrs(self, n):
        if isinstance(n, N.CClassDefNode):
            for s in self.flat(n.body):
                if isinstance(s, N.CVarDefNode):
                    t = self.type_of(s.base_type)
                    for d in s.declarators:
                        nm, tt, _ = self.decl(d, t)
                        self.attr_types[nm] = tt
        elif isinstance(n, N.StatListNode):
            for s in n.stats:
                self.collect_attrs(s)
        elif hasattr(n, 'body') and isinstance(n.body, N.Node) and not isinstance(n, N.FuncDefNode):
            self.collect_attrs(n.body)

    def flat(self, n):
        if n is None:
            return []
        if isinstance(n, N.StatListNode):
            r = []
            for s in n.stats:
                r.extend(self.flat(s))
            return r
        return [n]

    # -- statements
    def stat(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(n).__name__, n.pos[1:]))
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.lines)
        if n is not None:
            self.stat(n)
        if len(self.lines) == k:
            self.out('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CImportStatNode(self, n):
        if n.module_name not in ('cython',):
            raise Unsupported('cimport %s' % n.module_name)

    def s_FromCImportStatNode(self, n):
        if n.module_name not in ('cpython', 'cython', 'libc.math'):
            raise Unsupported('from %s cimport' % n.module_name)
        if n.module_name == 'libc.math':
            for imp in n.imported_names:
                if imp[1] not in ('INFINITY',):
                    raise Unsupported('libc.math.%s' % imp[1])
                self.out("%s = float('inf')" % (imp[2] or imp[1]))

    def s_PassStatNode(self, n):
        self.out('pass')

    def s_BreakStatNode(self, n):
        self.out('break')

    def s_ContinueStatNode(self, n):
        self.out('continue')

    def s_GlobalNode(self, n):
        self.out('global ' + ', '.join(n.names))

    def s_ReturnStatNode(self, n):
        rt = getattr(self, 'rettype', None)
        if n.value is None:
            self.out('return')
        else:
            self.out('return ' + self.coerce(rt, self.ex(n.value)))

    def s_ExprStatNode(self, n):
        self.out(self.ex(n.expr))

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.out('raise')
        elif n.exc_value is not None:
            self.out('raise %s(%s)' % (self.ex(n.exc_type), self.ex(n.exc_value)))
        else:
            self.out('raise ' + self.ex(n.exc_type))

    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None) or getattr(n, 'cond')
        self.out('assert ' + self.ex(c))

    def s_GILStatNode(self, n):
        self.out('if True:')
        self.block(n.body)

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.out(('if' if i == 0 else 'elif') + ' %s:' % self.ex(c.condition))
            self.block(c.body)
        if n.else_clause is not None:
            self.out('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.out('while %s:' % self.ex(n.condition))
        self.block(n.body)
        if n.else_clause is not None:
            self.out('else:')
            self.block(n.else_clause)

    def typed_target(self, t):
        """Does assigning to this target coerce?"""
        if isinstance(t, E.NameNode):
            return self.local_type(t.name) is not None
        if isinstance(t, E.AttributeNode):
            return self.attr_types.get(t.attribute) is not None
        if isinstance(t, E.TupleNode):
            return any(self.typed_target(a) for a in t.args)
        return False

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        s = '_rt.iterate(%s)' % self.ex(seq)
        if self.typed_target(n.target):
            tmp = self.tmp()
            self.out('for %s in %s:' % (tmp, s))
            self.ind += 1
            self.assign(n.target, tmp)
            self.ind -= 1
            self.block(n.body)
        else:
            self.out('for %s in %s:' % (self.ex(n.target), s))
            self.block(n.body)
        if n.else_clause is not None:
            self.out('else:')
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        raise Unsupported('for-from loop')

    def tmp(self):
        self.ntmp = getattr(self, 'ntmp', 0) + 1
        return '_t%d' % self.ntmp

    def assign(self, t, s):
        if isinstance(t, E.NameNode):
            self.out('%s = %s' % (t.name, self.coerce(self.local_type(t.name), s)))
        elif isinstance(t, E.AttributeNode):
            self.out('%s = %s' % (self.ex(t, load=False), self.coerce(self.attr_types.get(t.attribute), s)))
        elif isinstance(t, E.IndexNode):
            self.out('_rt.setitem(%s, %s, %s, %s)' % (self.ex(t.base), self.ex(t.index), s, self.flags()))
        elif isinstance(t, (E.TupleNode, E.ListNode)):
            tmps = [self.tmp() for _ in t.args]
            self.out('%s, = %s' % (', '.join(tmps), s))
            for a, b in zip(t.args, tmps):
                self.assign(a, b)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def flags(self):
        return '%r, %r' % (self.directives.get('boundscheck', True),
                           self.directives.get('wraparound', True))

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, E.ImportNode):
            mod = n.rhs.module_name.value
            if mod != 'array' or n.rhs.name_list is not None:
                raise Unsupported('import %s' % mod)
            self.out('%s = _rt.array_module' % n.lhs.name)
            return
        self.assign(n.lhs, self.ex(n.rhs))

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        if mod == '__future__':
            return
        if mod != 'array':
            raise Unsupported('from %s import' % mod)
        for name, target in n.items:
            self.out('%s = _rt.array_module.%s' % (target.name, name))

    def s_CascadedAssignmentNode(self, n):
        t = self.tmp()
        self.out('%s = %s' % (t, self.ex(n.rhs)))
        for l in n.lhs_list:
            self.assign(l, t)

    def s_ParallelAssignmentNode(self, n):
        tmps = []
        for s in n.stats:
            t = self.tmp()
            self.out('%s = %s' % (t, self.ex(s.rhs)))
            tmps.append((s.lhs, t))
        for l, t in tmps:
            self.assign(l, t)

    def s_InPlaceAssignmentNode(self, n):
        rhs = '_rt.binop(%r, %s, %s)' % (n.operator, self.ex(n.lhs), self.ex(n.rhs))
        self.assign(n.lhs, rhs)

    def s_CVarDefNode(self, n):
        t = self.type_of(n.base_type)
        for d in n.declarators:
            name, tt, default = self.decl(d, t)
            if self.scope.kind == 'class':
                self.attr_types[name] = tt
                init = '0' if tt and tt[0] in ('int',) else '0.0' if tt and tt[0] == 'float' else 'None'
                self.out('%s = %s' % (name, init))
                continue
            if tt is not None and tt[0] == 'carr':
                self.scope.types[name] = None
                self.out('%s = _rt.c_array(%s, %r)' % (name, self.ex(tt[2]), tt[1]))
                continue
            self.scope.types[name] = tt
            if default is not None:
                self.out('%s = %s' % (name, self.coerce(tt, self.ex(default))))
            else:
                self.out('%s = %s' % (name, '_rt.UNINIT' if tt and tt[0] != 'mv' else 'None'))

    def s_CClassDefNode(self, n):
        base = ''
        if getattr(n, 'bases', None) is not None and n.bases.args:
            base = '(' + ', '.join(self.ex(b) for b in n.bases.args) + ')'
        self.out('class %s%s:' % (n.class_name, base or '(_rt.CClass)'))
        sc = self.scope
        self.scope = Scope(sc, 'class')
        oc, self.cls = self.cls, n.class_name
        self.block(n.body)
        self.scope, self.cls = sc, oc

    def decorators(self, n):
        """-> (directive overrides, python decorators)"""
        d, py = {}, []
        for dec in (n.decorators or []):
            x = dec.decorator
            f = x.function if isinstance(x, E.SimpleCallNode) else x
            if isinstance(f, E.AttributeNode) and isinstance(f.obj, E.NameNode) and f.obj.name == 'cython':
                if f.attribute in ('boundscheck', 'wraparound'):
                    d[f.attribute] = bool(x.args[0].value)
                elif f.attribute == 'cdivision':
                    raise Unsupported('cdivision')
                elif f.attribute not in ('nonecheck', 'inline', 'initializedcheck', 'cfunc', 'ccall'):
                    raise Unsupported('cython.%s' % f.attribute)
            else:
                py.append('@' + self.ex(x))
        return d, py

    def func(self, n, name, args, body, rettype=None):
        d, py = self.decorators(n)
        for x in py:
            self.out(x)
        sc = self.scope
        self.scope = Scope(sc if sc.kind != 'class' else sc.parent, 'func')
        ps, pre = [], []
        for a in args:
            t = self.type_of(a.base_type) if a.base_type is not None else None
            nm, tt, _ = self.decl(a.declarator, t)
            if not nm:                # untyped argument: parsed as a type name
                nm, tt = a.base_type.name, None
            self.scope.types[nm] = tt
            p = nm
            if a.default is not None:
                p += '=' + self.ex(a.default)
            ps.append(p)
            if tt is not None:
                pre.append((nm, tt))
            elif isinstance(a.base_type, N.CSimpleBaseTypeNode) and a.base_type.name in ('list', 'tuple', 'dict') \
                    and a.declarator.name:
                pre.append((nm, ('py', a.base_type.name)))
        if getattr(n, 'star_arg', None) is not None:
            ps.append('*' + n.star_arg.name)
        if getattr(n, 'starstar_arg', None) is not None:
            ps.append('**' + n.starstar_arg.name)
        self.out('def %s(%s):' % (name, ', '.join(ps)))
        self.functions.append((self.cls + '.' if self.cls else '') + name)
        od, self.directives = self.directives, dict(self.directives, **d)
        orr, self.rettype = getattr(self, 'rettype', None), rettype
        self.ind += 1
        for nm, tt in pre:
            if tt[0] == 'py':
                self.out('_rt.check_type(%s, %s)' % (nm, tt[1]))
            else:
                self.out('%s = %s' % (nm, self.coerce(tt, nm)))
        self.ind -= 1
        self.block(body)
        self.directives, self.rettype = od, orr
        self.scope = sc

    def s_DefNode(self, n):
        self.func(n, n.name, n.args, n.body)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while not isinstance(d, N.CFuncDeclaratorNode):
            d = d.base
        rt = None
        if isinstance(n.base_type, N.CSimpleBaseTypeNode) and n.base_type.name != 'void':
            rt = self.type_of(n.base_type)
        self.func(n, d.base.name, d.args, n.body, rt)

    def s_TryExceptStatNode(self, n):
        raise Unsupported('try')

    # -- expressions
    def ex(self, n, load=True):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            if isinstance(n, E.NumBinopNode) or isinstance(n, E.BinopNode):
                return '_rt.binop(%r, %s, %s)' % (n.operator, self.ex(n.operand1), self.ex(n.operand2))
            raise Unsupported('expression %s at %s' % (type(n).__name__, n.pos[1:]))
        return m(n)

    def e_NameNode(self, n):
        t = self.local_type(n.name)
        if t is not None and t[0] in ('int', 'float') and self.scope.kind == 'func':
            return '_rt.ld(%s)' % n.name
        return n.name

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.ex(n.obj), n.attribute)

    def e_NoneNode(self, n):
        return 'None'

    def e_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def e_IntNode(self, n):
        return '(%s)' % n.value

    def e_FloatNode(self, n):
        return n.value

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    def e_StringNode(self, n):
        v = n.unicode_value if getattr(n, 'unicode_value', None) is not None else n.value
        if isinstance(v, bytes):
            v = v.decode()
        return repr(str(v))
    e_IdentifierStringNode = e_StringNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_TupleNode(self, n):
        return '(' + ''.join(self.ex(a) + ', ' for a in n.args) + ')'

    def e_ListNode(self, n):
        return '[' + ', '.join(self.ex(a) for a in n.args) + ']'

    def e_IndexNode(self, n):
        return '_rt.getitem(%s, %s, %s)' % (self.ex(n.base), self.ex(n.index), self.flags())

    def e_SliceIndexNode(self, n):
        return '_rt.getslice(%s, %s, %s)' % (
            self.ex(n.base), 'None' if n.start is None else self.ex(n.start),
            'None' if n.stop is None else self.ex(n.stop))

    def e_SimpleCallNode(self, n):
        f = n.function
        args = [self.ex(a) for a in n.args]
        if isinstance(f, E.NameNode) and f.name in ('range', 'len', 'reversed', 'min', 'max', 'abs',
                                                   'enumerate', 'sum', 'list', 'tuple', 'int', 'float', 'zip'):
            return '_rt.py_%s(%s)' % (f.name, ', '.join(args))
        return '%s(%s)' % (self.ex(f), ', '.join(args))

    def e_GeneralCallNode(self, n):
        pos = self.ex(n.positional_args)
        kw = self.ex(n.keyword_args) if n.keyword_args is not None else '{}'
        return '%s(*%s, **%s)' % (self.ex(n.function), pos, kw)

    def e_DictNode(self, n):
        return '{' + ', '.join('%s: %s' % (self.ex(i.key), self.ex(i.value)) for i in n.key_value_pairs) + '}'

    def e_PrimaryCmpNode(self, n):
        ops = [(n.operator, n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append((c.operator, c.operand2))
            c = c.cascade
        s = '(' + self.ex(n.operand1)
        for op, o in ops:
            op = {'is_not': 'is not', 'not_in': 'not in'}.get(op, op)
            s += ' %s %s' % (op, self.ex(o))
        return s + ')'

    def e_NotNode(self, n):
        return '(not %s)' % self.ex(n.operand)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.ex(n.operand1), n.operator, self.ex(n.operand2))

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.ex(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.ex(n.operand)

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.ex(n.true_val), self.ex(n.test), self.ex(n.false_val))

    def e_TypecastNode(self, n):
        return self.coerce(self.type_of(n.base_type), self.ex(n.operand))

    def comp(self, loop):
        """nested for/if of a comprehension -> (clauses, expression node)"""
        cl = []
        while True:
            if isinstance(loop, N.ForInStatNode):
                tgt = ', '.join(a.name for a in loop.target.args) if isinstance(loop.target, E.TupleNode) \
                    else loop.target.name
                cl.append('for %s in _rt.iterate(%s)' % (tgt, self.ex(loop.iterator.sequence)))
                loop = loop.body
            elif isinstance(loop, N.IfStatNode):
                cl.append('if ' + self.ex(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif isinstance(loop, N.StatListNode) and len(loop.stats) == 1:
                loop = loop.stats[0]
            elif isinstance(loop, E.ComprehensionAppendNode):
                return cl, loop.expr
            elif isinstance(loop, N.ExprStatNode):
                loop = loop.expr
            elif isinstance(loop, E.YieldExprNode):
                return cl, loop.arg
            else:
                raise Unsupported('comprehension part %s' % type(loop).__name__)

    def e_ComprehensionNode(self, n):
        # comprehension variables shadow C-typed locals
        sc = self.scope
        self.scope = Scope(sc, 'comp')
        self.mask(n.loop)
        cl, e = self.comp(n.loop)
        s = '[%s %s]' % (self.ex(e), ' '.join(cl))
        self.scope = sc
        return s

    def mask(self, loop):
        if isinstance(loop, N.ForInStatNode):
            for t in (loop.target.args if isinstance(loop.target, E.TupleNode) else [loop.target]):
                self.scope.types[t.name] = None
            self.mask(loop.body)
        elif isinstance(loop, N.StatListNode):
            for s in loop.stats:
                self.mask(s)

    def e_GeneratorExpressionNode(self, n):
        sc = self.scope
        self.scope = Scope(sc, 'comp')
        self.mask(n.loop)
        cl, e = self.comp(n.loop)
        s = '(%s %s)' % (self.ex(e), ' '.join(cl))
        self.scope = sc
        return s

    def s_PropertyNode(self, n):
        raise Unsupported('property block')


def translate(path):
    """-> (python source, names of the functions translated)"""
    with open(path) as f:
        src = f.read()
    t = Translator(os.path.basename(path), src)
    return t.run(), t.functions
