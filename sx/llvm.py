"""LLVM IR (text, opaque pointers) of the C extension -> Python functions over the symbolic heap of sx/cheap.py.
The IR is made by clang from /repo's current pvectorcmodule.c on every run; every instruction is translated, one by one."""
import re, os, subprocess


class Unsupported(Exception): pass


CLANG = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-fwrapv', '-w', '-S', '-emit-llvm']


def make_ir(src, scratch, include):
    a, b = os.path.join(scratch, 'm0.ll'), os.path.join(scratch, 'm1.ll')
    p = subprocess.run(CLANG + ['-I' + include, src, '-o', a], capture_output=True, text=True)
    if p.returncode: raise RuntimeError('clang: ' + p.stderr[-2000:])
    opt = next((x for x in ('/usr/lib/llvm-18/bin/opt', 'opt-18', 'opt') if os.path.exists(x) or x == 'opt'))
    p = subprocess.run([opt, '-S', '-passes=function(sroa,early-cse,simplifycfg)', a, '-o', b], capture_output=True, text=True)
    if p.returncode: raise RuntimeError('opt: ' + p.stderr[-2000:])
    with open(b) as f: return f.read()


# ---- tokens and types ----------------------------------------------------------------------------------------
TOK = re.compile(r'\s*(c"(?:[^"\\]|\\..)*"|[%@]"[^"]*"|[%@][-\w.$]+|![\w.]*|"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|<|>|[][{}()=,*#:])')


def tokens(s):
    out = []; i = 0
    s = s.rstrip()
    while i < len(s):
        if s[i:].lstrip().startswith(';'): break
        m = TOK.match(s, i)
        if not m:
            if not s[i:].strip(): break
            raise Unsupported('token %r' % s[i:i + 40])
        out.append(m.group(1)); i = m.end()
    return out


class TS:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        y = self.next()
        if y != x: raise Unsupported('expected %s, found %s in %s' % (x, y, ' '.join(self.t)))


ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'returned', 'noalias', 'inreg', 'immarg', 'nofree'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}       # name -> (type, initializer tokens or None if external)
        self.funcs = {}         # name -> (params, body lines, varargs)
        self.decls = set()
        lines = text.split('\n')
        i = 0
        defs = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                self.types[name] = rest
            elif l.startswith('@'):
                defs.append(l)
            elif l.startswith('declare'):
                m = re.search(r'@([-\w.$]+)\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('define'):
                m = re.search(r'@([-\w.$]+)\((.*)\)', l)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                self.funcs[m.group(1)] = (self.params(m.group(2)), body)
            i += 1
        for k in list(self.types):
            if isinstance(self.types[k], str):
                r = self.types[k].strip()
                self.types[k] = ('opaque',) if r == 'opaque' else self.type(TS(tokens(r)))
        for l in defs:
            name, rest = l.split(' = ', 1)
            t = TS(tokens(rest))
            ext = False
            while t.peek() in ('internal', 'private', 'external', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'common', 'weak', 'linkonce_odr', 'thread_local', 'hidden', 'global', 'constant'):
                x = t.next()
                if x == 'external': ext = True
                if x in ('global', 'constant'): break
            ty = self.type(t)
            self.globals[name[1:]] = (ty, None if ext else t)

    def params(self, s):
        t = TS(tokens(s))
        ps = []
        while t.peek() is not None:
            if t.eat('...'): break
            ty = self.type(t)
            while t.peek() in ATTR or t.peek() == 'align':
                if t.next() == 'align': t.next()
            ps.append((ty, t.next()))
            t.eat(',')
        return ps

    def type(self, t):
        x = t.next()
        if x == '{':
            fs = []
            while not t.eat('}'):
                fs.append(self.type(t)); t.eat(',')
            return ('s', tuple(fs))
        if x == '[':
            n = int(t.next()); t.need('x')
            e = self.type(t); t.need(']')
            return ('a', n, e)
        if x.startswith('%'):
            d = self.types.get(x)
            if d is None: raise Unsupported('type ' + x)
            if isinstance(d, str): d = self.types[x] = self.type(TS(tokens(d)))
            return d
        if x in ('ptr', 'void', 'double', 'float', 'metadata', 'label'): return (x,)
        if re.match(r'i\d+$', x): return ('i', int(x[1:]))
        raise Unsupported('type ' + x)

    def size(self, ty):
        k = ty[0]
        if k == 'i': return max(1, ty[1] // 8) if ty[1] != 1 else 1
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'a': return ty[1] * self.size(ty[2])
        if k == 's':
            o = 0
            for f in ty[1]:
                o = _al(o, self.align(f)) + self.size(f)
            return _al(o, self.align(ty))
        raise Unsupported('size of %r' % (ty,))

    def align(self, ty):
        k = ty[0]
        if k == 'a': return self.align(ty[2])
        if k == 's': return max([self.align(f) for f in ty[1]] or [1])
        return self.size(ty)

    def offset(self, ty, i):
        o = 0
        for j, f in enumerate(ty[1]):
            o = _al(o, self.align(f))
            if j == i: return o
            o += self.size(f)
        raise Unsupported('struct index')


def _al(o, a): return (o + a - 1) // a * a


def cbytes(tok):
    s = tok[2:-1]
    return bytes(re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s), 'latin-1')


# ---- code generation -----------------------------------------------------------------------------------------
class Gen:
    """Python source for all functions of a module.  Free names in the source: the run-time helpers of sx/cheap.py,
    g_<global> pointers, F_<function> (IR functions and modelled externals)."""
    def __init__(self, mod):
        self.m = mod
        self.out = []
        self.called = set()

    def pyname(self, n): return re.sub(r'\W', '_', n)

    def run(self):
        for f in self.m.funcs: self.func(f)
        return '\n'.join(self.out)

    def func(self, name):
        params, body = self.m.funcs[name]
        self.names = {}
        ps = [self.local(p) for _, p in params]
        # blocks
        blocks = []
        cur = None
        nparam = len(params)
        i = 0
        entry = str(nparam)          # the implicit label of the entry block
        while i < len(body):
            l = body[i]
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = ('%' + m.group(1), [])
                blocks.append(cur)
            elif l.strip():
                if cur is None:
                    cur = ('%' + entry, []); blocks.append(cur)
                s = l.strip()
                if s.startswith('switch') and not s.endswith(']'):
                    while not body[i].strip().startswith(']'):
                        i += 1; s += ' ' + body[i].strip()
                cur[1].append(s)
            i += 1
        self.index = {b[0]: j for j, b in enumerate(blocks)}
        self.phis = {}
        for lab, ins in blocks:
            ph = []
            for s in ins:
                m = re.match(r'(%\S+) = phi (.*)', s)
                if not m: break
                t = TS(tokens(m.group(2)))
                ty = self.m.type(t)
                inc = {}
                while t.peek() == '[':
                    t.next()
                    v = self.value(t, ty); t.need(',')
                    inc[t.next()] = v
                    t.need(']'); t.eat(',')
                ph.append((self.local(m.group(1)), inc))
            self.phis[lab] = ph
        w = self.out.append
        w('def F_%s(%s):' % (self.pyname(name), ', '.join(ps)))
        w('  COV.add(%r)' % name)
        w('  b = 0')
        w('  while True:')
        for j, (lab, ins) in enumerate(blocks):
            w('    %s b == %d:' % ('if' if j == 0 else 'elif', j))
            self.lab = lab
            for s in ins:
                if re.match(r'%\S+ = phi ', s): continue
                try: lines = self.instr(s)
                except Unsupported as e: lines = ['unsupported(%r)' % ('%s: %s (%s)' % (name, s, e))]
                for x in lines: w('      ' + x)
        w('')

    def local(self, n):
        p = self.names.get(n)
        if p is None:
            p = self.names[n] = 'v%d' % len(self.names)
        return p

    def jump(self, lab):
        ph = self.phis[lab]
        r = []
        if ph:
            l = ', '.join(p for p, _ in ph); v = ', '.join(inc[self.lab] for _, inc in ph)
            r.append('%s = %s' % (l, v))
        r.append('b = %d; continue' % self.index[lab])
        return r

    def value(self, t, ty):
        """A value token sequence -> Python expression."""
        x = t.next()
        if x.startswith('%'): return self.local(x)
        if x.startswith('@'): return self.glob(x[1:])
        if x == 'null': return 'None'
        if x in ('undef', 'poison'): return 'None' if ty[0] == 'ptr' else '0'
        if x == 'true': return 'True'
        if x == 'false': return 'False'
        if x == 'zeroinitializer': return '0'
        if re.match(r'-?\d+$', x):
            if ty == ('i', 1): return 'True' if int(x) else 'False'
            return '(%s)' % x
        if x == 'getelementptr':
            t.eat('inbounds'); t.need('(')
            e = self.gep(t)
            t.need(')')
            return e
        raise Unsupported('value ' + x)

    def glob(self, n):
        if n in self.m.funcs or (n in self.m.decls and n not in self.m.globals):
            self.called.add(n)
            return 'F_' + self.pyname(n)
        return 'g_' + self.pyname(n)

    def typed(self, t):
        ty = self.m.type(t)
        while t.peek() in ATTR or t.peek() == 'align':
            if t.next() == 'align': t.next()
        return ty, self.value(t, ty)

    def gep(self, t):
        ty = self.m.type(t); t.need(',')
        _, base = self.typed(t)
        const = 0; dyn = []
        first = True
        while t.eat(','):
            if t.peek() and t.peek().startswith('!'): break
            _, ix = self.typed(t)
            if first:
                sz = self.m.size(ty); first = False
            elif ty[0] == 'a':
                ty = ty[2]; sz = self.m.size(ty)
            elif ty[0] == 's':
                k = int(ix.strip('()'))
                const += self.m.offset(ty, k); ty = ty[1][k]
                continue
            else: raise Unsupported('gep into %r' % (ty,))
            m = re.match(r'^\((-?\d+)\)$', ix)
            if m: const += int(m.group(1)) * sz
            else: dyn.append('%s * %d' % (ix, sz))
        if dyn: return 'gep(%s, %s)' % (base, ' + '.join(dyn + ([str(const)] if const else [])))
        if const: return 'gep(%s, %d)' % (base, const)
        return base

    def shape(self, ty):
        """(offset, size, is pointer) of the scalars of a struct or array; nested ones are not covered."""
        fs = [(self.m.offset(ty, i), f) for i, f in enumerate(ty[1])] if ty[0] == 's' else [(i * self.m.size(ty[2]), ty[2]) for i in range(ty[1])]
        if any(f[0] not in ('i', 'ptr') for _, f in fs): raise Unsupported('aggregate %r' % (ty,))
        return [(o, self.m.size(f), f[0] == 'ptr') for o, f in fs]

    def instr(self, s):
        s = re.sub(r'(, ![-\w.]+ ![-\w.]+)+$', '', s)
        m = re.match(r'(%\S+) = (.*)', s)
        d = None
        if m: d = self.local(m.group(1)); s = m.group(2)
        t = TS(tokens(s))
        op = t.next()
        M = self.m
        if op == 'ret':
            ty = M.type(t)
            if ty[0] == 'void': return ['return None']
            return ['return ' + self.value(t, ty)]
        if op == 'br':
            if t.peek() == 'label':
                t.next(); return self.jump(t.next())
            _, c = self.typed(t); t.need(','); t.need('label'); a = t.next(); t.need(','); t.need('label'); b = t.next()
            return ['if %s:' % c] + ['  ' + x for x in self.jump(a)] + ['else:'] + ['  ' + x for x in self.jump(b)]
        if op == 'switch':
            ty, v = self.typed(t); t.need(','); t.need('label'); dflt = t.next(); t.need('[')
            r = []
            while not t.eat(']'):
                ty2 = M.type(t); k = t.next(); t.need(','); t.need('label'); l = t.next()
                r += ['if %s == %s:' % (v, k)] + ['  ' + x for x in self.jump(l)]
            return r + self.jump(dflt)
        if op == 'unreachable': return ['unreachable()']
        if op == 'alloca':
            ty = M.type(t)
            if t.eat(',') and t.peek() != 'align':
                _, n = self.typed(t)
                return ['%s = alloca(mulsize(%s, %d))' % (d, n, M.size(ty))]
            return ['%s = alloca(%d)' % (d, M.size(ty))]
        if op == 'load':
            t.eat('volatile')
            ty = M.type(t); t.need(','); _, p = self.typed(t)
            if ty[0] == 'ptr': return ['%s = ldp(%s)' % (d, p)]
            if ty[0] in ('s', 'a'): return ['%s = ldagg(%s, %r)' % (d, p, self.shape(ty))]
            if ty[0] != 'i': raise Unsupported('load %r' % (ty,))
            return ['%s = ldi(%s, %d)' % (d, p, M.size(ty))]
        if op == 'store':
            t.eat('volatile')
            ty, v = self.typed(t); t.need(','); _, p = self.typed(t)
            if ty[0] in ('s', 'a'): return ['stagg(%s, %s, %r)' % (p, v, self.shape(ty))]
            if ty[0] not in ('ptr', 'i'): raise Unsupported('store %r' % (ty,))
            return ['st(%s, %s, %d)' % (p, v, M.size(ty))]
        if op == 'getelementptr':
            t.eat('inbounds'); t.eat('nuw'); t.eat('nusw')
            return ['%s = %s' % (d, self.gep(t))]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): t.next()
            ty, a = self.typed(t); t.need(','); b = self.value(t, ty)
            w = ty[1]
            if op in ('add', 'sub', 'mul') and w in (32, 64):
                sym = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                h = 1 << (w - 1)
                return ['%s = %s %s %s' % (d, a, sym, b),
                        'if type(%s) is not int or not %d <= %s < %d: %s = wrap(%s, %d)' % (d, -h, d, h, d, d, w)]
            return ['%s = i_%s(%s, %s, %d)' % (d, op, a, b, w)]
        if op == 'icmp':
            while t.peek() in ('samesign',): t.next()
            pr = t.next(); ty, a = self.typed(t); t.need(','); b = self.value(t, ty)
            if ty[0] == 'ptr':
                if pr in ('eq', 'ne'):
                    if b == 'None': return ['%s = %s is %sNone' % (d, a, 'not ' if pr == 'ne' else '')]
                    return ['%s = %s(%s, %s)' % (d, 'peq' if pr == 'eq' else 'pne', a, b)]
                return ['%s = pcmp(%r, %s, %s)' % (d, pr, a, b)]
            py = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}.get(pr)
            if py: return ['%s = %s %s %s' % (d, a, py, b)]
            py = {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pr]
            return ['%s = uns(%s, %d) %s uns(%s, %d)' % (d, a, ty[1], py, b, ty[1])]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            while t.peek() in ('nneg', 'nsw', 'nuw'): t.next()
            ty, a = self.typed(t)
            if op == 'freeze': return ['%s = %s' % (d, a)]
            t.need('to'); to = M.type(t)
            if op == 'zext': return ['%s = %s' % (d, 'b2i(%s)' % a if ty == ('i', 1) else 'uns(%s, %d)' % (a, ty[1]))]
            if op == 'sext': return ['%s = %s' % (d, '-b2i(%s)' % a if ty == ('i', 1) else a)]
            if op == 'trunc': return ['%s = %s' % (d, 'i2b(%s)' % a if to == ('i', 1) else 'wrap(%s, %d)' % (a, to[1]))]
            if op == 'bitcast' and ty == to: return ['%s = %s' % (d, a)]
            if op == 'ptrtoint': return ['%s = p2i(%s, %d)' % (d, a, to[1])]
            if op == 'inttoptr': return ['%s = i2p(%s)' % (d, a)]
            raise Unsupported(op)
        if op == 'select':
            _, c = self.typed(t); t.need(','); ty, a = self.typed(t); t.need(','); _, b = self.typed(t)
            if ty[0] == 'i' and ty[1] > 1: return ['%s = iselect(%s, %s, %s)' % (d, c, a, b)]
            if ty[0] == 'ptr': return ['%s = pselect(%s, %s, %s)' % (d, c, a, b)]
            return ['%s = %s if %s else %s' % (d, a, c, b)]
        if op == 'extractvalue':
            _, a = self.typed(t)
            while t.eat(','): a += '[%s]' % t.next()
            return ['%s = %s' % (d, a)]
        if op == 'insertvalue':
            _, a = self.typed(t); t.need(','); _, v = self.typed(t); t.need(',')
            k = t.next()
            if t.peek() == ',': raise Unsupported(op)
            return ['%s = aggset(%s, %s, %s)' % (d, a, k, v)]
        if op in ('call', 'tail', 'musttail', 'notail'):
            while op != 'call': op = t.next()
            while t.peek() in ATTR or t.peek() in ('fastcc', 'ccc') or t.peek() == 'align' or t.peek() == 'range':
                if t.next() == 'align': t.next()
            M.type(t)
            if t.peek() == '(':
                n = 0
                while True:
                    x = t.next()
                    n += x == '('; n -= x == ')'
                    if n == 0: break
            f = t.next()
            if f.startswith('@'):
                n = f[1:]
                if n.startswith('llvm.'):
                    if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')): return ['pass']
                    wd = re.search(r'\.i(\d+)$', n)
                    n = re.sub(r'\.p0.*|\.i\d+$', '', n)
                    self.called.add(n)
                else: self.called.add(n)
                fn = 'F_' + self.pyname(n)
            else: fn = self.local(f)
            t.need('(')
            args = []
            while not t.eat(')'):
                _, v = self.typed(t)
                args.append(v); t.eat(',')
            if f.startswith('@llvm.') and n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.ct', 'llvm.sadd', 'llvm.ssub', 'llvm.smul', 'llvm.uadd', 'llvm.usub', 'llvm.umul')):
                args.append(wd.group(1))
            if not f.startswith('@'): fn = 'fnptr(%s)' % fn
            return ['%s%s(%s)' % (d + ' = ' if d else '', fn, ', '.join(args))]
        raise Unsupported(op)
