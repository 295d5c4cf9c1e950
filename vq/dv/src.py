"""Source loading.  A .pyx file is turned into Python text mechanically: types, C declarations and GIL markers are dropped
(every dropped item is counted and reported); statements, expressions and control flow are kept as they stand.  The text
that results must parse with `ast`, otherwise the file is out of reach and its obligations are undecided."""
import ast, os, re


class OutOfReach(Exception):
    pass


DROPS = {}


def drop(kind):
    DROPS[kind] = DROPS.get(kind, 0) + 1


TYPE = r'(?:unsigned\s+)?[A-Za-z_][\w.]*(?:\s*\[[^\]\w]*\])?(?:\s*\*)*'
CTYPES = ('double_t', 'complex_t', 'long_t', 'int_t', 'bool_t', 'int', 'double', 'bint', 'long', 'float', 'complex', 'object', 'char', 'void')


def logical_lines(text):
    """Physical lines joined over brackets and backslashes: [(indent, text)]; strings and comments respected."""
    out, buf, depth, instr = [], '', 0, None
    for raw in text.split('\n'):
        line = raw
        i, keep = 0, ''
        while i < len(line):
            ch = line[i]
            if instr:
                if line.startswith(instr, i):
                    keep += instr
                    i += len(instr)
                    instr = None
                    continue
                if ch == '\\':
                    keep += line[i:i+2]
                    i += 2
                    continue
                keep += ch
                i += 1
                continue
            if line.startswith('"""', i) or line.startswith("'''", i):
                instr = line[i:i+3]
                keep += instr
                i += 3
                continue
            if ch in '"\'':
                j = i+1
                while j < len(line) and line[j] != ch:
                    j += 2 if line[j] == '\\' else 1
                keep += line[i:j+1]
                i = j+1
                continue
            if ch == '#':
                break
            if ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
            keep += ch
            i += 1
        if instr:
            buf += keep + '\n'
            continue
        if keep.rstrip().endswith('\\') and not instr:
            buf += keep.rstrip()[:-1] + ' '
            continue
        if depth > 0:
            buf += keep.rstrip() + ' '
            continue
        buf += keep
        if buf.strip():
            out.append(buf.rstrip())
        buf = ''
    return out


def strip_args(args):
    """`double_t x, complex_t [:, :] y=None` -> `x, y=None`."""
    parts, depth, cur = [], 0, ''
    for ch in args:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        parts.append(cur)
    names = []
    for p in parts:
        p = p.strip()
        d = ''
        m = re.match(r'^(.*?)(?<![=<>!])=(?!=)(.*)$', p, re.S)
        if m:
            p, d = m.group(1).strip(), '=' + m.group(2).strip()
        m = re.match(r'^(\*{0,2})(?:.*?[\s\]\*])?([A-Za-z_]\w*)$', p, re.S)
        if not m:
            raise OutOfReach('argument %r' % p)
        if p != m.group(1) + m.group(2):
            drop('argument types')
        names.append(m.group(1) + m.group(2) + d)
    return ', '.join(names)


def reference(name, index):
    """`&self.x`, `&a[i, j]`, `&x`: a reference to what is named."""
    if index is not None:
        return '_cref(%s, (%s,))' % (name, index)
    if '.' in name:
        return "_cref(self, '%s')" % name.split('.')[1]
    return '_cref(%s)' % name


def convert(text):
    res = []
    cells = set(re.findall(r'[(,=]\s*&\s*([A-Za-z_]\w*)\b(?![\[.])', text))
    for line in logical_lines(text):
        ind = line[:len(line)-len(line.lstrip())]
        s = line.strip()
        if re.match(r'^(from\s+\S+\s+)?cimport\b', s):
            m = re.match(r'^from\s+(\S+)\s+cimport\s+(.*)$', s)
            if m:
                drop('cimport turned into import')
                res.append(ind + 'from %s import %s' % (m.group(1), m.group(2)))
            else:
                drop('cimport')
            continue
        if s.startswith('@cython.'):
            drop('cython directives (cdivision, boundscheck)')
            continue
        if '&' in s:
            s = re.sub(r'(?<=[(,=])(\s*)&\s*(self\.\w+|\w+)\b(?:\[([^\[\]]*)\])?', lambda m: drop('addresses (&x) as references') or m.group(1) + reference(m.group(2), m.group(3)), s)
        s = re.sub(r'<\s*(?:int|double|long|char|void)\s*\*\s*>\s*', lambda m: drop('C casts') or '', s)
        s = re.sub(r'\bsizeof\(\s*([\w.]+)\s*\)', r"sizeof('\1')", s)
        s = re.sub(r'<\s*(?:%s)\s*>\s*' % '|'.join(CTYPES), lambda m: drop('C casts') or ('_cint' if 'int' in m.group(0) or 'long' in m.group(0) else ''), s)
        s = re.sub(r'_cint(?=[A-Za-z_])(\w+)', r'_cint(\1)', s)
        m = re.match(r'^cdef\s+class\s+(.*):$', s)
        if m:
            drop('cdef class')
            res.append(ind + 'class %s:' % m.group(1))
            continue
        m = re.match(r'^(?:cdef|cpdef)\s+(?:inline\s+)?(?:(%s)\s+)?([A-Za-z_]\w*)\s*\((.*)\)\s*(nogil)?\s*(?:except[^:]*)?(?:nogil)?\s*:$' % TYPE, s, re.S)
        if m and '=' not in s.split('(')[0]:
            drop('return types and nogil')
            res.append(ind + 'def %s(%s):' % (m.group(2), strip_args(m.group(3))))
            continue
        m = re.match(r'^def\s+([A-Za-z_]\w*)\s*\((.*)\)\s*:$', s, re.S)
        if m:
            res.append(ind + 'def %s(%s):' % (m.group(1), strip_args(m.group(2))))
            continue
        if re.match(r'^cdef\b', s):
            # declaration, with or without a value
            body = s[4:].strip()
            m = re.match(r'^(?:%s\s*(?:\[\s*\d*\s*\]\s*)*)\s+?(.*)$' % r'(?:unsigned\s+)?[A-Za-z_][\w.]*(?:\s*\[[^\]]*\])*(?:\s*\*)*', body, re.S)
            m2 = re.match(r'^[A-Za-z_][\w.]*\s*((?:\[[^\]]*\]\s*)*)(.*)$', body, re.S)
            rest = m2.group(2).strip()
            if '=' not in rest:
                drop('C declarations')
                if ind and rest in cells:
                    res.append(ind + "%s = _ccell('%s')" % (rest, rest))
                elif re.search(r'\[\s*\w+\s*\]', rest) or re.search(r'\d', m2.group(1)):
                    nm = re.match(r'(\w+)', rest)
                    res.append(ind + '%s = _cbuffer()' % nm.group(1))
                elif ind:
                    res.append(ind + 'pass')
                continue
            drop('types of declarations with a value')
            rest = re.sub(r'^(\w+)\s*\[[^\]]*\]\s*=', r'\1 =', rest)
            parts, depth, cur = [], 0, ''
            for ch in rest:
                if ch in '([{':
                    depth += 1
                elif ch in ')]}':
                    depth -= 1
                if ch == ',' and depth == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            done = False
            for p in parts:
                if '=' in p:
                    res.append(ind + p.strip())
                    done = True
            if not done:
                res.append(ind + 'pass')
            continue
        m = re.match(r'^with\s+nogil\s*:(.*)$', s)
        if m:
            drop('with nogil')
            res.append(ind + 'if True:' + m.group(1))
            continue
        m = re.match(r'^(for\s+.*\s+in\s+)prange\((.*)\)\s*:$', s, re.S)
        if m:
            drop('prange read as range')
            a = re.sub(r',\s*(?:nogil|schedule|num_threads|chunksize)\s*=\s*[^,]+', '', m.group(2))
            res.append(ind + m.group(1) + 'range(%s):' % a)
            continue
        res.append(ind + s)
    return '\n'.join(res) + '\n'


def counters(fn):
    """`i = s; while i < n: body; i += 1` is `for i in range(s, n): body` when nothing else in the body sets i or what n
    is made of, no continue or break belongs to the loop, and i is not used afterwards before it is set again."""
    def names(n, ctx):
        return [x for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)]

    def own(stmts):
        for st in stmts:
            if isinstance(st, (ast.Continue, ast.Break, ast.FunctionDef)):
                return True
            if isinstance(st, ast.If) and (own(st.body) or own(st.orelse)):
                return True
            if isinstance(st, (ast.For, ast.While)) and own(st.orelse):
                return True
            if isinstance(st, (ast.With, ast.Try)):
                return True
        return False

    def simple(n):
        return (isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.Attribute) and simple(n.value)
                or isinstance(n, ast.BinOp) and simple(n.left) and simple(n.right)
                or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and simple(n.args[0]))

    def one(prev, w):
        t = w.test
        if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(w.body) < 2:
            return None
        if isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
            i, n = t.left.id, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            i, n = t.comparators[0].id, t.left
        else:
            return None
        last = w.body[-1]
        if isinstance(last, ast.AugAssign):
            ok = isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1
        else:
            ok = isinstance(last, ast.Assign) and ast.dump(last) in [ast.dump(ast.parse('%s = %s' % (i, e)).body[0]) for e in ('%s + 1' % i, '1 + %s' % i)]
        body = w.body[:-1]
        if not ok or not simple(n) or own(body):
            return None
        if isinstance(t.ops[0], ast.NotEq):
            return None
        st = {x.id for b in body for x in names(b, (ast.Store, ast.Del))} | {i}
        if i in {x.id for b in body for x in names(b, (ast.Store, ast.Del))} or st & {x.id for x in names(n, ast.Load)}:
            return None
        if any(isinstance(x, ast.Attribute) for x in ast.walk(n)) and any(
                isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for b in body for x in ast.walk(b)):
            return None
        inside = {id(x) for x in ast.walk(w)}
        start = None
        for p in prev:
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i:
                start = p.value
            elif i in {x.id for x in names(p, (ast.Store, ast.Del))}:
                start = None
            elif start is not None and not isinstance(start, ast.Constant):
                start = None
        if not isinstance(start, ast.Constant) or not isinstance(start.value, int):
            return None
        end = max(getattr(x, 'end_lineno', 0) or 0 for x in ast.walk(w))
        later = sorted([x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == i and id(x) not in inside and x.lineno > end],
                       key=lambda x: (x.lineno, x.col_offset))
        if later and not isinstance(later[0].ctx, ast.Store):
            return None
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
            return None
        f = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name('range', ast.Load()), [start, n], []), body=body, orelse=[])
        return ast.fix_missing_locations(ast.copy_location(f, w))

    def walk(stmts):
        for k, st in enumerate(stmts):
            for a in ('body', 'orelse', 'finalbody'):
                b = getattr(st, a, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    walk(b)
            if isinstance(st, ast.While):
                f = one(stmts[:k], st)
                if f is not None:
                    stmts[k] = f
                    drop('counter loops read as for loops')
    walk(fn.body)


class Module(object):
    def __init__(self, root, rel):
        self.root, self.rel = root, rel
        with open(os.path.join(root, rel)) as f:
            self.text = f.read()
        if rel.endswith('.pyx'):
            self.py = convert(self.text)
        else:
            self.py = self.text
        try:
            self.tree = ast.parse(self.py)
        except SyntaxError as e:
            raise OutOfReach('%s: %s: %r' % (rel, e, self.py.split('\n')[(e.lineno or 1)-1]))
        for n in ast.walk(self.tree):
            if isinstance(n, ast.FunctionDef) and any(isinstance(x, ast.While) for x in ast.walk(n)):
                counters(n)
        self.classes, self.funcs, self.imports, self.consts = {}, {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ('.' * n.level + (n.module or ''), a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name, None)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


class Sources(object):
    """All modules of a tree; resolves names, classes and methods across them."""
    def __init__(self, root):
        self.root = root
        self.cache = {}

    def module(self, rel):
        if rel not in self.cache:
            self.cache[rel] = Module(self.root, rel)
        return self.cache[rel]

    def rel_of(self, mod, dotted):
        """Path of the module a (relative) import names, as seen from mod."""
        lv = len(dotted) - len(dotted.lstrip('.'))
        base = os.path.dirname(mod.rel).split('/') if lv else []
        if lv > 1:
            base = base[:-(lv-1)]
        parts = base + [x for x in dotted.lstrip('.').split('.') if x]
        p = '/'.join(parts)
        for cand in (p + '.pyx', p + '.py', p + '/__init__.py'):
            if os.path.exists(os.path.join(self.root, cand)):
                return cand
        return None

    def resolve(self, mod, name, depth=0):
        """('class'|'func'|'const', module, node) of a module-level name."""
        if depth > 6:
            return None
        if name in mod.classes:
            return 'class', mod, mod.classes[name]
        if name in mod.funcs:
            return 'func', mod, mod.funcs[name]
        if name in mod.imports:
            d, n = mod.imports[name]
            if n is None:
                return None
            rel = self.rel_of(mod, d)
            if rel is None:
                return None
            return self.resolve(self.module(rel), n, depth+1)
        if name in mod.consts:
            return 'const', mod, mod.consts[name]
        return None

    def mro(self, mod, cls):
        """Classes in order, single inheritance: [(module, ClassDef)]."""
        out = [(mod, cls)]
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(mod, b.id)
                if r and r[0] == 'class':
                    out += self.mro(r[1], r[2])
        return out

    def method(self, mod, cls, name):
        for m, c in self.mro(mod, cls):
            for n in reversed(c.body):      # the last definition counts
                if isinstance(n, ast.FunctionDef) and n.name == name and not any(
                        isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                    return m, c, n
        return None
