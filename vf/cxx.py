"""C++ front end: clang's JSON AST -> IR.  Integer types are kept: every unsigned / 64-bit operation is tagged with its type,
so that the condition generator emits a no-overflow obligation for it."""
import json
import os
import subprocess

from .ir import (Const, Var, Bin, Cmp, And, Or, Not, Neg, Index, Call, IfE, Assign, If, While, Break, Continue, Return,
                 Raise, ExprS, Func, Havoc, Unsupported)

_TY = {'unsigned int': 'u32', 'int': 'i32', 'long': 'i64', 'int64_t': 'i64', 'unsigned long': 'u64', 'uint32_t': 'u32', 'uint16_t': 'u16',
       'uint8_t': 'u8', 'bool': 'bool', 'size_t': 'u64', 'unsigned char': 'u8', 'unsigned short': 'u16', 'long long': 'i64',
       'uint64_t': 'u64', 'int32_t': 'i32', 'std::size_t': 'u64'}


def ctype(node):
    t = node.get('type', {})
    q = t.get('desugaredQualType') or t.get('qualType') or ''
    for s in (q, t.get('qualType', '')):
        s = s.replace('const', '').replace('&', '').strip()
        if s in _TY:
            return _TY[s]
    return None


def dump(header, name, incdir=None):
    cmd = ['clang++', '-std=c++14', '-x', 'c++', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, header]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise Unsupported('clang rejects %s: %s' % (header, p.stderr.decode()[-300:]))
    txt = p.stdout.decode()
    dec = json.JSONDecoder()
    out, i = [], 0
    while True:
        while i < len(txt) and txt[i] not in '{':
            i += 1
        if i >= len(txt):
            break
        o, i = dec.raw_decode(txt, i)
        out.append(o)
    for o in out:
        _fill_lines(o)
    for o in out:
        if o.get('kind') == 'FunctionDecl' and o.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in o.get('inner', [])):
            return o
    raise Unsupported('C++ function %s not found' % name)


def _fill_lines(o):
    last = [None]

    def walk(n):
        if isinstance(n, dict):
            if 'offset' in n and 'tokLen' in n:
                if 'line' in n:
                    last[0] = n['line']
                else:
                    n['line'] = last[0]
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(o)


def has_kind(n, kind):
    if not isinstance(n, dict):
        return False
    return n.get('kind') == kind or any(has_kind(c, kind) for c in n.get('inner', []))


def mentions(n, s):
    return s in json.dumps(n.get('type', {})) or any(mentions(c, s) for c in n.get('inner', []) if isinstance(c, dict))


class CxxLower(object):
    def __init__(self, header):
        self.header = header
        self.k = 0
        self.ptypes = {}

    def tmp(self, p):
        self.k += 1
        return '$%s%d' % (p, self.k)

    def line(self, n):
        r = n.get('range', {}).get('begin', {})
        return r.get('line') or r.get('expansionLoc', {}).get('line')

    # expressions; side effects go to self.pre (evaluated before) and self.post
    def e(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('C++ expression ' + k)
        return m(n)

    def pas(self, n):
        return self.e(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_ConstantExpr = pas

    def cast(self, n):
        ck = n.get('castKind')
        a = self.e(n['inner'][0])
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay'):
            return a
        if ck == 'IntegralCast':
            t, f = ctype(n), ctype(n['inner'][0])
            return _conv(a, f, t)
        if ck == 'IntegralToBoolean':
            return Cmp('!=', a, Const(0))
        if ck == 'IntegralToFloating':
            raise Unsupported('floating point in C++')
        raise Unsupported('C++ cast %s' % ck)

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast

    def e_IntegerLiteral(self, n):
        return Const(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return Const(bool(n['value']))

    def e_DeclRefExpr(self, n):
        return Var(n['referencedDecl']['name'])

    def e_ArraySubscriptExpr(self, n):
        return Index(self.e(n['inner'][0]), [self.e(n['inner'][1])], line=self.line(n))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=':
            v = self.e(n['inner'][1])
            t = self.e(n['inner'][0])
            self.pre.append(Assign(t, v, line=self.line(n)))
            return t
        if op == ',':
            self.e(n['inner'][0])
            return self.e(n['inner'][1])
        if op in ('&&', '||'):
            a = self.e(n['inner'][0])
            saved, self.pre = self.pre, []
            b = self.e(n['inner'][1])
            if self.pre:
                raise Unsupported('side effect under short circuit')
            self.pre = saved
            return (And if op == '&&' else Or)([a, b])
        a, b = self.e(n['inner'][0]), self.e(n['inner'][1])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return Cmp(op, a, b)
        if op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
            return Bin('//' if op == '/' else op, a, b, ctype(n), line=self.line(n))
        raise Unsupported('C++ operator ' + op)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        t = self.e(n['inner'][0])
        v = self.e(n['inner'][1])
        self.pre.append(Assign(t, Bin(op, t, v, ctype(n)), line=self.line(n)))
        return t

    def e_UnaryOperator(self, n):
        op = n['opcode']
        a = self.e(n['inner'][0])
        if op in ('++', '--'):
            ty = ctype(n['inner'][0])
            new = Bin(op[0], a, Const(1), ty, line=self.line(n))
            if n.get('isPostfix'):
                t = self.tmp('p')
                self.pre += [Assign(Var(t), a), Assign(a, new, line=self.line(n))]
                return Var(t)
            self.pre.append(Assign(a, new, line=self.line(n)))
            return a
        if op == '!':
            return Not(a)
        if op == '-':
            return Const(-a.v) if isinstance(a, Const) else Neg(a)
        if op == '+':
            return a
        raise Unsupported('C++ unary ' + op)

    def e_ConditionalOperator(self, n):
        c, a, b = [self.e(x) for x in n['inner']]
        return IfE(c, a, b)

    def e_CallExpr(self, n):
        f = self.e(n['inner'][0])
        return Call(f.name, [self.e(x) for x in n['inner'][1:]], {})

    def e_CXXThrowExpr(self, n):
        txt = json.dumps(n.get('inner', []))
        exc = 'Exception'
        for c in ('out_of_range', 'invalid_argument', 'runtime_error', 'overflow_error', 'length_error'):
            if c in txt:
                exc = c
                break
        self.pre.append(Raise(exc, line=self.line(n)))
        return Const(0)

    # statements
    def stmts(self, n):
        out = []
        for s in (n.get('inner', []) if n['kind'] == 'CompoundStmt' else [n]):
            out += self.s(s)
        return out

    def s(self, n):
        if not n or 'kind' not in n:
            return []
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(n)
        if n['kind'].startswith('CXXOperatorCall') and mentions(n, 'basic_ostream'):
            return []                      # error text
        self.pre = []
        v = self.e(n)
        out = self.pre
        if isinstance(v, Call):
            out = out + [ExprS(v, line=self.line(n))]
        return out

    def s_CompoundStmt(self, n):
        return self.stmts(n)

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                raise Unsupported('C++ declaration ' + d['kind'])
            if 'stringstream' in json.dumps(d.get('type', {})) or 'basic_string' in json.dumps(d.get('type', {})):
                continue
            t = ctype(d)
            init = [c for c in d.get('inner', []) if 'kind' in c and c['kind'] not in ('FullComment',)]
            if t is None:
                if init and '*' in d['type']['qualType']:
                    self.pre = []
                    v = self.e(init[0])
                    out += self.pre + [Assign(Var(d['name']), v, line=self.line(d))]
                    continue
                raise Unsupported('C++ type %s' % d['type'].get('qualType'))
            if init:
                self.pre = []
                v = self.e(init[0])
                out += self.pre + [Assign(Var(d['name']), v, line=self.line(d))]
            else:
                out.append(Havoc(d['name'], t))
        return out

    def s_ReturnStmt(self, n):
        self.pre = []
        v = self.e(n['inner'][0]) if n.get('inner') else None
        return self.pre + [Return(v, line=self.line(n))]

    def s_BreakStmt(self, n):
        return [Break()]

    def s_ContinueStmt(self, n):
        return [Continue()]

    def cond(self, n):
        self.pre = []
        c = self.e(n)
        if self.pre:
            raise Unsupported('side effect in condition')
        return c

    def s_IfStmt(self, n):
        parts = [x for x in n['inner'] if x]
        self.pre = []
        c = self.e(parts[0])
        pre = self.pre
        then = self.s(parts[1])
        els = self.s(parts[2]) if n.get('hasElse') else []
        return pre + [If(c, then, els, line=self.line(n))]

    def s_WhileStmt(self, n):
        c, b = n['inner'][-2], n['inner'][-1]
        return [While(self.cond(c), self.s(b), [], dict(kind='while'), line=self.line(n))]

    def s_ForStmt(self, n):
        init, cv, c, inc, body = n['inner']
        if cv:
            raise Unsupported('condition variable')
        pre = self.s(init) if init else []
        cond = self.cond(c) if c else Const(True)
        step = self.s(inc) if inc else []
        iv = None
        if step and isinstance(step[-1], Assign) and isinstance(step[-1].tgt, Var):
            iv = step[-1].tgt.name
        return pre + [While(cond, self.s(body), step, dict(kind='cfor', var=iv, counter=iv), line=self.line(n))]


_RNG = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'i32': (-2**31, 2**31 - 1),
        'i64': (-2**63, 2**63 - 1), 'i16': (-2**15, 2**15 - 1), 'i8': (-128, 127)}
RANGES = _RNG


def _conv(a, f, t):
    if t is None:
        raise Unsupported('integral cast to unknown type')
    if t == 'bool' or f == 'bool':
        if f == 'bool' and t in _RNG:
            if isinstance(a, Const):
                return Const(int(a.v))
            return IfE(a, Const(1), Const(0))
        return a
    if f in _RNG and t in _RNG and _RNG[t][0] <= _RNG[f][0] and _RNG[f][1] <= _RNG[t][1]:
        return a
    if isinstance(a, Const) and _RNG[t][0] <= a.v <= _RNG[t][1]:
        return a
    return Call('$narrow:' + t, [a], {})      # value must fit: an obligation


def lower_cxx(header, name):
    n = dump(header, name)
    lo = CxxLower(header)
    params = []
    for c in n['inner']:
        if c['kind'] == 'ParmVarDecl':
            params.append(c['name'])
            lo.ptypes[c['name']] = c['type'].get('qualType')
    body = lo.stmts([c for c in n['inner'] if c['kind'] == 'CompoundStmt'][0])
    src = open(header).read()
    r = n['range']
    text = src[r['begin']['offset']:r['end']['offset'] + 1] if 'offset' in r['begin'] else ''
    # several declared copies (one per scope) of one name: give shadowed block variables their own names
    f = Func(name, params, body, {}, 'cxx', text, header, lo.ptypes)
    f.gen = False
    return f
