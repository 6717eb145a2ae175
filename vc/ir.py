"""Compile /repo's sources to LLVM IR on every run and parse the textual IR."""
import os, re, subprocess, struct, glob, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('IIR_REPO', '/repo')
CLANG = 'clang++-18'
FLAGS = ['-std=c++11', '-ffp-contract=off', '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-g', '-S', '-emit-llvm', '-w']
PASSES = 'function(sroa,mem2reg,simplifycfg)'


class BuildError(Exception):
    pass


def compile_ll(src, out, extra=()):
    inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'iir')]
    r = subprocess.run([CLANG] + FLAGS + inc + list(extra) + [src, '-o', out + '.0'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s\n%s' % (src, r.stderr))
    r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, out + '.0', '-o', out],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt failed on %s\n%s' % (src, r.stderr))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        return {'i': 'i%d' % self.n, 'arr': '[%d x %r]' % (self.n, self.el)}.get(
            self.k, self.name or self.k + (repr(self.el) if self.el else ''))


DOUBLE, FLOAT, PTR, VOID = Ty('double'), Ty('float'), Ty('ptr'), Ty('void')


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name, attrs)
        self.ret = None
        self.blocks = {}     # label -> [instr]
        self.order = []
        self.entry = None
        self.line = None
        self.dem = None


TOK = re.compile(r'\s*(c"(?:[^"])*"|[%@!]"[^"]*"|[%@!][-\w$.]+|"[^"]*"|[-+\w$.]+|\.\.\.|[()\[\]{},=*<>#:|])')


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            i += 1
            continue
        out.append(m.group(1))
        i = m.end()
    return out


class Module:
    def __init__(self):
        self.types = {}      # name -> list of Ty | None
        self.packed = set()
        self.fns = {}
        self.globals = {}    # name -> (Ty, init tokens, const)
        self.decls = {}
        self.members = {}    # class -> [(member, offset bytes)]
        self.bases = {}
        self._lay = {}

    # ---- layout
    def align(self, t):
        if t.k == 'i':
            return max(1, t.n // 8)
        if t.k in ('double', 'ptr'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return self.align(t.el)
        return self.layout(t)[2]

    def size(self, t):
        if t.k == 'i':
            return max(1, t.n // 8)
        if t.k in ('double', 'ptr'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return t.n * self.size(t.el)
        return self.layout(t)[1]

    def fields(self, t):
        if t.k == 'named':
            return self.types[t.name]
        return t.el

    def layout(self, t):
        key = t.name if t.k == 'named' else repr(t)
        r = self._lay.get(key)
        if r:
            return r
        off, al, offs = 0, 1, []
        packed = t.k == 'named' and t.name in self.packed
        fs = self.fields(t)
        if fs is None:
            raise KeyError('opaque type %s' % t.name)
        for f in fs:
            a = 1 if packed else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        r = (offs, off, al)
        self._lay[key] = r
        return r

    def leaves(self, t, base=0):
        """scalar leaves [(offset, Ty)] of a type"""
        if t.k in ('i', 'double', 'float', 'ptr'):
            return [(base, t)]
        if t.k == 'arr':
            s = self.size(t.el)
            return [x for j in range(t.n) for x in self.leaves(t.el, base + j * s)]
        offs = self.layout(t)[0]
        return [x for o, f in zip(offs, self.fields(t)) for x in self.leaves(f, base + o)]

    def named(self, n):
        return Ty('named', name=n)


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise SyntaxError('expected %s in %s' % (x, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = Ty('arr', n, e)
        elif t == '{':
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            r = Ty('struct', el=els)
        elif t == '<':
            if self.peek() == '{':
                r = self.type()
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = Ty('vec', n, e)
        elif t[0] == '%':
            r = Ty('named', name=t[1:].strip('"'))
        elif re.fullmatch(r'i\d+', t):
            r = Ty('i', int(t[1:]))
        elif t in ('double', 'float', 'ptr', 'void', 'label', 'metadata', 'token', 'x86_fp80', 'half', 'fp128'):
            r = Ty(t)
        else:
            raise SyntaxError('type? %s in %s' % (t, ' '.join(self.t)))
        while self.peek() == '(' and r.k == 'void':
            break
        return r

    ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
            'immarg', 'readnone', 'inreg', 'nofree', 'nest', 'dead_on_unwind', 'writable', 'dso_local', 'local_unnamed_addr'}

    def attrs(self):
        d = {}
        while True:
            t = self.peek()
            if t in self.ATTR:
                self.next()
                d[t] = True
            elif t == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range'):
                n = self.next()
                if self.accept('('):
                    if n in ('sret', 'byval', 'elementtype'):
                        d[n] = self.type()
                        self.expect(')')
                    else:
                        d[n] = int(self.next())
                        self.expect(')')
            else:
                return d

    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('l', t[1:].strip('"'))
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        if t in ('true', 'false'):
            return ('c', ty, 1 if t == 'true' else 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            et = self.type()
            self.expect(',')
            self.type()
            b = self.value(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            return ('gepc', et, b, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add'):
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0:
                        return ('undef', ty)
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            els = []
            if t == '<' and self.peek() == '{':
                v = self.value(ty)
                self.expect('>')
                return v
            while not self.accept(close):
                et = self.type()
                els.append((et, self.value(et)))
                self.accept(',')
            return ('agg', ty, els)
        if t.startswith('c"'):
            return ('str', t)
        if ty.k in ('double', 'float'):
            if t.startswith('0x'):
                return ('c', ty, struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return ('c', ty, float(t))
        return ('c', ty, int(t))


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGW = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'disjoint',
         'nneg', 'tail', 'musttail', 'notail', 'volatile'}
CONV = {'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext', 'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'}


def parse_instr(line, mod):
    dbg = re.search(r', !dbg !(\d+)', line)
    line0 = line
    line = re.sub(r', !\w[\w.]* !\d+', '', line)
    line = re.sub(r'(\s#\d+)+\s*$', '', line)
    toks = tokenize(line)
    p = P(toks, mod)
    dest = None
    if len(toks) > 2 and toks[1] == '=' and toks[0][0] == '%':
        dest = toks[0][1:].strip('"')
        p.i = 2
    flags = set()
    while p.peek() in FLAGW:
        flags.add(p.next())
    op = p.next()
    while p.peek() in FLAGW:
        flags.add(p.next())
    d = int(dbg.group(1)) if dbg else None
    if op in BIN:
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return (op, dest, ty, a, p.value(ty), flags, d)
    if op == 'fneg':
        ty = p.type()
        return (op, dest, ty, p.value(ty), None, flags, d)
    if op in CONV:
        ty = p.type()
        a = p.value(ty)
        p.expect('to')
        return ('conv', dest, op, ty, a, p.type(), d)
    if op in ('icmp', 'fcmp'):
        pr = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return (op, dest, pr, ty, a, p.value(ty), d)
    if op == 'alloca':
        ty = p.type()
        n = None
        if p.accept(',') and p.peek() != 'align':
            nt = p.type()
            n = p.value(nt)
        return (op, dest, ty, n, d)
    if op == 'load':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty = p.type()
        p.expect(',')
        p.type()
        return (op, dest, ty, p.value(PTR), d)
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        return (op, ty, v, p.value(PTR), d)
    if op == 'getelementptr':
        ty = p.type()
        p.expect(',')
        p.type()
        b = p.value(PTR)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append(p.value(it))
        return (op, dest, ty, b, idx, d)
    if op == 'br':
        if p.accept('label'):
            return (op, None, p.next()[1:].strip('"'), None, d)
        p.type()
        c = p.value(Ty('i', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        return (op, c, a, p.next()[1:].strip('"'), d)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        df = p.next()[1:].strip('"')
        p.expect('[')
        cs = []
        while not p.accept(']'):
            p.type()
            k = int(p.next())
            p.expect(',')
            p.expect('label')
            cs.append((k, p.next()[1:].strip('"')))
        return (op, v, df, cs, d)
    if op == 'phi':
        ty = p.type()
        inc = []
        while p.accept('['):
            v = p.value(ty)
            p.expect(',')
            inc.append((v, p.next()[1:].strip('"')))
            p.expect(']')
            p.accept(',')
        return (op, dest, ty, inc, d)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        return (op, dest, ty, c, a, p.value(ty), d)
    if op == 'ret':
        ty = p.type()
        return (op, ty, None if ty.k == 'void' else p.value(ty), d)
    if op in ('unreachable',):
        return (op, d)
    if op == 'resume':
        return (op, d)
    if op == 'freeze':
        ty = p.type()
        return (op, dest, ty, p.value(ty), d)
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return (op, dest, v, ix, d)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return (op, dest, ty, v, e, ix, d)
    if op in ('call', 'invoke'):
        p.attrs()
        while p.peek() in ('fastcc', 'ccc'):
            p.next()
        p.attrs()
        ty = p.type()
        if p.peek() == '(':  # function type, skip
            depth = 0
            while True:
                x = p.next()
                depth += x == '('
                depth -= x == ')'
                if depth == 0:
                    break
        if p.peek() == 'asm':
            return ('unsupported', dest, line0, d)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at.k == 'metadata':
                return ('nop', d)
            ad = p.attrs()
            args.append((at, p.value(at), ad))
            p.accept(',')
        norm = unw = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            norm = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            unw = p.next()[1:].strip('"')
        return ('call', dest, ty, callee, args, norm, unw, d)
    if op == 'landingpad':
        return (op, dest, 'catch' in line, d)
    return ('unsupported', dest, line0, d)


LINK = {'dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'external', 'hidden', 'protected', 'available_externally',
        'noundef', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'weak', 'linkonce', 'common', 'constant', 'global',
        'thread_local', 'extern_weak', 'appending', 'externally_initialized'}


def parse_ll(path, mod, prefix):
    """parse one .ll file into mod.  Type names are shared between files (a name that
    already exists with a different body gets a per-file alias)."""
    text = open(path).read()
    lines = text.split('\n')
    meta = {}
    # types
    local = {}
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            nm, body = ln.split(' = type ', 1)
            nm = nm[1:].strip('"')
            local[nm] = body
    alias = {}
    for nm, body in local.items():
        if nm in mod.raw and mod.raw[nm] != body:
            alias[nm] = nm + '~' + prefix
    if alias:
        rx = re.compile('|'.join(sorted((re.escape('%"' + a + '"') + '|' + re.escape('%' + a) + r'(?![\w.$-])' for a in alias), key=len, reverse=True)))

        def rep(m):
            s = m.group(0)[1:].strip('"')
            return '%"' + alias[s] + '"'
        lines = [rx.sub(rep, l) if '%' in l else l for l in lines]
        local = {}
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                local[nm[1:].strip('"')] = body
    for nm, body in local.items():
        if nm in mod.types:
            continue
        mod.raw[nm] = body
        if body.strip() == 'opaque':
            mod.types[nm] = None
            continue
        if body.strip().startswith('<'):
            mod.packed.add(nm)
        ty = P(tokenize(body), mod).type()
        mod.types[nm] = ty.el
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('define'):
            toks = tokenize(ln)
            p = P(toks, mod)
            p.i = 1
            while p.peek() in LINK or p.peek() in P.ATTR or p.peek() in ('comdat',):
                if p.peek() in P.ATTR and p.peek() not in LINK:
                    break
                p.next()
            p.attrs()
            while p.peek() in LINK:
                p.next()
            rt = p.type()
            name = p.next()[1:].strip('"')
            internal = ' internal ' in ln[:40]
            f = Fn(name)
            f.ret = rt
            p.expect('(')
            while not p.accept(')'):
                if p.peek() == '...':
                    p.next()
                    continue
                at = p.type()
                ad = p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                f.params.append((at, nm, ad))
                p.accept(',')
            mdb = re.search(r'!dbg !(\d+)', ln)
            f.dbg = int(mdb.group(1)) if mdb else None
            i += 1
            lab = None
            body = []
            while lines[i] != '}':
                l = lines[i]
                i += 1
                if not l.strip():
                    continue
                m = re.match(r'^("[^"]+"|[-\w.$]+):', l)
                if m:
                    lab = m.group(1).strip('"')
                    f.blocks[lab] = []
                    f.order.append(lab)
                    continue
                if lab is None:
                    lab = 'entry'
                    f.blocks[lab] = []
                    f.order.append(lab)
                s = l.strip()
                if s.startswith('call void @llvm.dbg') or s.startswith('tail call void @llvm.dbg') or s.startswith('#dbg'):
                    continue
                if s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter'):
                    if f.blocks[lab] and f.blocks[lab][-1][0] == 'landingpad' and s.startswith('catch'):
                        x = f.blocks[lab][-1]
                        f.blocks[lab][-1] = (x[0], x[1], True, x[3])
                    continue
                if re.match(r'(%\S+ = )?invoke ', s) and ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
                if re.match(r'(%\S+ = )?switch|switch', s) and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                    while ']' not in lines[i]:
                        s += ' ' + lines[i].strip()
                        i += 1
                    s += ' ' + lines[i].strip()
                    i += 1
                f.blocks[lab].append(s)   # parsed lazily
            f.entry = f.order[0]
            f.mod = mod
            f.prefix = prefix
            f.parsed = False
            key = name + '~' + prefix if internal else name
            if internal:
                mod.internal.setdefault((prefix, name), f)
            if name not in mod.fns:
                mod.fns[name] = f
            else:
                mod.dups.setdefault(name, []).append(f)
        elif ln.startswith('@') and re.match(r'@\S+ = .*\balias\b', ln):
            m = re.match(r'@("[^"]+"|\S+) = .*\balias\b.*@("[^"]+"|[-\w.$]+)', ln)
            mod.aliases[m.group(1).strip('"')] = m.group(2).strip('"')
        elif ln.startswith('@'):
            m = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', ln)
            if m:
                nm = m.group(1).strip('"')
                rest = re.sub(r', !dbg !\d+', '', m.group(2))
                rest = re.sub(r', align \d+', '', rest)
                internal = re.match(r'^(private|internal)', rest)
                mod.globals[(prefix, nm) if internal else nm] = rest
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln)
            if m:
                mod.decls[m.group(1).strip('"')] = ln
        elif ln.startswith('!') and ' = ' in ln:
            k, v = ln.split(' = ', 1)
            if k[1:].isdigit():
                meta[int(k[1:])] = v
        i += 1
    _debug(meta, mod, prefix)


def _fld(v, k):
    m = re.search(r'\b%s: (!?"?[^,)]*)' % k, v)
    return m.group(1) if m else None


def _qual(meta, mid):
    """qualified name through scope chain"""
    v = meta.get(mid)
    if v is None:
        return ''
    nm = re.search(r'\bname: "([^"]*)"', v)
    nm = nm.group(1) if nm else ''
    sc = re.search(r'\bscope: !(\d+)', v)
    if sc and ('DINamespace' in v or 'DICompositeType' in v):
        q = _qual(meta, int(sc.group(1)))
        return (q + '::' if q else '') + nm
    return nm


def _debug(meta, mod, prefix):
    for k, v in meta.items():
        if 'DILocation(' in v:
            m = re.search(r'line: (\d+)', v)
            mod.lines[(prefix, k)] = int(m.group(1)) if m else 0
        elif 'DISubprogram(' in v:
            m = re.search(r'linkageName: "([^"]*)"', v)
            l = re.search(r'\bline: (\d+)', v)
            fl = re.search(r'\bfile: !(\d+)', v)
            if m and 'spFlags: DISPFlagDefinition' in v:
                fn = ''
                if fl and int(fl.group(1)) in meta:
                    g = re.search(r'filename: "([^"]*)"', meta[int(fl.group(1))])
                    fn = g.group(1) if g else ''
                mod.where[m.group(1)] = (fn, int(l.group(1)) if l else 0)
        elif 'DICompositeType(' in v and ('DW_TAG_class_type' in v or 'DW_TAG_structure_type' in v) and 'DIFlagFwdDecl' not in v:
            q = _qual(meta, k)
            if not (q.startswith('Iir::')):
                continue
            el = re.search(r'elements: !(\d+)', v)
            if not el or q in mod.members:
                continue
            ids = re.findall(r'!(\d+)', meta[int(el.group(1))])
            mem = []
            for x in ids:
                w = meta.get(int(x), '')
                if 'DW_TAG_member' in w and 'DIFlagStaticMember' not in w:
                    nm = re.search(r'\bname: "([^"]*)"', w)
                    of = re.search(r'\boffset: (\d+)', w)
                    mem.append((nm.group(1) if nm else '', int(of.group(1)) // 8 if of else 0))
                elif 'DW_TAG_inheritance' in w:
                    of = re.search(r'\boffset: (\d+)', w)
                    bt = re.search(r'baseType: !(\d+)', w)
                    mod.bases.setdefault(q, []).append((_qual(meta, int(bt.group(1))), int(of.group(1)) // 8 if of else 0))
            mod.members[q] = mem


def ensure(f):
    if not f.parsed:
        for k in f.blocks:
            f.blocks[k] = [x for x in (parse_instr(s, f.mod) if isinstance(s, str) else s for s in f.blocks[k]) if x[0] != 'nop']
        f.parsed = True
    return f


def load(files):
    """files: list of (path, prefix)"""
    mod = Module()
    mod.raw, mod.internal, mod.dups, mod.lines, mod.where = {}, {}, {}, {}, {}
    mod.aliases = {}
    for path, prefix in files:
        parse_ll(path, mod, prefix)
    for a, b in mod.aliases.items():
        if a not in mod.fns and b in mod.fns:
            mod.fns[a] = mod.fns[b]
    names = sorted(mod.fns)
    r = subprocess.run(['c++filt'], input='\n'.join(names + sorted(mod.decls)), capture_output=True, text=True)
    mod.dem = dict(zip(names + sorted(mod.decls), r.stdout.split('\n')))
    mod.bydem = {}
    for n in names:
        d = mod.dem[n]
        mod.fns[n].dem = d
        # complete-object and base-object constructors share the demangled name: prefer C2/C1 deterministic
        if d not in mod.bydem or n.find('C2') >= 0:
            mod.bydem[d] = mod.fns[n]
    return mod


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'iir', '*.cpp')))


def build(work, tus):
    """compile library sources and the given instantiation units; returns list of (ll, prefix)"""
    os.makedirs(work, exist_ok=True)
    jobs = []
    for s in sources() + list(tus):
        b = os.path.splitext(os.path.basename(s))[0]
        jobs.append((s, os.path.join(work, b + '.ll'), b))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: compile_ll(j[0], j[1]), jobs))
    return [(j[1], j[2]) for j in jobs]
