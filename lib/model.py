"""IDL model, printer and independent reference semantics (shares nothing with the compiler)."""
import copy, dataclasses, os
from dataclasses import dataclass, field
from typing import List, Optional

PRIMS = {'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8, 'int8': 1, 'int16': 2, 'int32': 4,
         'int64': 8, 'float32': 4, 'float64': 8}
INTS = [p for p in PRIMS if 'int' in p]

C_KEYWORDS = """auto break case char const continue default do double else enum extern float for goto if inline int long
register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
asm typeof fortran bool true false nullptr alignas alignof constexpr static_assert thread_local typeof_unqual""".split()
CPP_KEYWORDS = """alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl
concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do
double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace
new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return
short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef
typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq import module final override""".split()
JAVA_KEYWORDS = """abstract assert boolean break byte case catch char class const continue default do double else enum extends
final finally float for goto if implements import instanceof int interface long native new package private protected
public return short static strictfp super switch synchronized this throw throws transient try void volatile while
true false null var record yield sealed permits non exports module open opens provides requires to transitive uses with when""".split()
RUST_KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try union gen""".split()
IDL_WORDS = list(PRIMS) + ['interface', 'buffer', 'struct', 'const', 'method', 'error', 'include', 'in', 'out', 'optional']
RESERVED = set(C_KEYWORDS + CPP_KEYWORDS + JAVA_KEYWORDS + RUST_KEYWORDS + IDL_WORDS)


@dataclass
class Field:
    type: str
    count: Optional[int]
    name: str


@dataclass
class Struct:
    name: str
    fields: List[Field]


@dataclass
class Const:
    type: str
    name: str
    value: str


@dataclass
class Err:
    name: str


@dataclass
class Param:
    dir: str
    type: str
    arr: object  # None | 'u' | int
    name: str


@dataclass
class Method:
    name: str
    params: List[Param]
    optional: bool = False
    doc: Optional[str] = None     # raw text between '/**\n' and '*/'
    attrs: Optional[int] = None   # repeated attribute count (violations only)


@dataclass
class Iface:
    name: str
    base: Optional[str]
    members: list

    @property
    def methods(self):
        return [m for m in self.members if isinstance(m, Method)]

    @property
    def errors(self):
        return [m for m in self.members if isinstance(m, Err)]

    @property
    def consts(self):
        return [m for m in self.members if isinstance(m, Const)]


@dataclass
class Raw:
    """verbatim declaration text (violations)"""
    text: str


@dataclass
class File:
    path: str                 # relative path in the tree, e.g. 'a.idl' or 'd/b.idl'
    includes: List[str]
    decls: list
    dress: Optional[str] = None   # seed of the spaces and comments between its tokens

    @property
    def stem(self):
        return os.path.splitext(os.path.basename(self.path))[0]

    @property
    def base(self):
        """Path without the extension: generated headers are laid out like the IDL files."""
        return os.path.splitext(self.path)[0]


@dataclass
class FileSet:
    files: List[File]         # files[0] is the main file
    incdirs: List[str] = field(default_factory=list)

    # ---- lookups
    def all_decls(self):
        for f in self.files:
            for d in f.decls:
                yield f, d

    def struct(self, n):
        for _, d in self.all_decls():
            if isinstance(d, Struct) and d.name == n:
                return d

    def iface(self, n):
        for _, d in self.all_decls():
            if isinstance(d, Iface) and d.name == n:
                return d

    def structs(self):
        return [d for _, d in self.all_decls() if isinstance(d, Struct)]

    def ifaces(self):
        return [d for _, d in self.all_decls() if isinstance(d, Iface)]

    def file_of(self, name):
        for f, d in self.all_decls():
            if not isinstance(d, Raw) and d.name == name and not isinstance(d, Const):
                return f

    def is_obj(self, t):
        return t == 'interface' or self.iface(t) is not None

    # ---- layout (independent of the compiler: natural alignment rules of C)
    def size_align(self, t, _seen=()):
        if t in PRIMS:
            return PRIMS[t], PRIMS[t]
        if self.is_obj(t):
            return 16, 16   # object slots are aligned to their own size (README: "aligned to the size of the largest member")
        s = self.struct(t)
        if s is None or t in _seen:
            raise ValueError(t)
        tot, al = 0, 1
        for f in s.fields:
            sz, a = self.size_align(f.type, _seen + (t,))
            tot += sz * (f.count or 1)
            al = max(al, a)
        return tot, al

    def layout_ok(self, s):
        off, al = 0, 1
        for f in s.fields:
            sz, a = self.size_align(f.type)
            if off % a:
                return False
            off += sz * (f.count or 1)
            al = max(al, a)
        return off % al == 0

    def offsets(self, s):
        off, out = 0, []
        for f in s.fields:
            out.append(off)
            off += self.size_align(f.type)[0] * (f.count or 1)
        return out

    def objects_in(self, t):
        """[(path, offset, objtype)] breadth-first; path elements are names or ints (array index)."""
        s = self.struct(t)
        if s is None:
            return []
        out, q = [], [((), 0, s)]
        while q:
            pre, base, st = q.pop(0)
            for f, off in zip(st.fields, self.offsets(st)):
                n = f.count or 1
                sz = self.size_align(f.type)[0]
                if f.type not in PRIMS and not self.is_obj(f.type) and not self.has_objects(f.type):
                    continue
                for i in range(n):
                    p = pre + (f.name,) + ((i,) if n > 1 else ())   # T[1] is emitted as T
                    o = base + off + i * sz
                    if f.type in PRIMS:
                        break
                    if self.is_obj(f.type):
                        out.append((p, o, f.type))
                    else:
                        q.append((p, o, self.struct(f.type)))
        return out

    def has_objects(self, t):
        s = self.struct(t)
        if s is None:
            return False
        return any((self.is_obj(f.type) or self.has_objects(f.type)) for f in s.fields if f.type not in PRIMS)

    # ---- hierarchy
    def chain(self, iface):
        """root .. iface"""
        c = [iface]
        while c[0].base:
            c.insert(0, self.iface(c[0].base))
        return c

    def flat_methods(self, iface):
        """[(op, owner iface, method)] root first"""
        out, op = [], 0
        for i in self.chain(iface):
            for m in i.methods:
                out.append((op, i, m))
                op += 1
        return out

    def flat_errors(self, iface):
        out, v = [], 10
        for i in self.chain(iface):
            for e in i.errors:
                out.append((v, i, e))
                v += 1
        return out

    def flat_consts(self, iface):
        return [(i, c) for i in self.chain(iface) for c in i.consts]

    # ---- parameter classification and wire layout
    def kind(self, p):
        """prim | small | big | buf | sbuf | obj | objarr"""
        if p.type == 'buffer':
            return 'buf'
        if self.is_obj(p.type):
            return 'obj' if p.arr is None else 'objarr'
        if p.arr is not None:
            return 'buf' if p.type in PRIMS else 'sbuf'
        if p.type in PRIMS:
            return 'prim'
        if self.size_align(p.type)[0] <= 16:
            return 'small'
        return 'big'

    def elem_size(self, p):
        if p.type == 'buffer':
            return 1
        return self.size_align(p.type)[0]

    def wire(self, m):
        """Reference envelope. Returns dict with 'BI','BO','OI','OO' lists.
        buffer slot: ('bundle', [(param_idx, size)...]) | ('fixed', idx, size) | ('var', idx, elem)
        object slot: (param_idx, k)   k-th object of that parameter"""
        w = {'BI': [], 'BO': [], 'OI': [], 'OO': []}
        for d, B, O in (('in', 'BI', 'OI'), ('out', 'BO', 'OO')):
            small = [i for i, p in enumerate(m.params) if p.dir == d and self.kind(p) in ('prim', 'small')]
            bundled = []
            if len(small) >= 2:
                bundled = sorted(small, key=lambda i: -self.elem_size(m.params[i]))
                w[B].append(('bundle', [(i, self.elem_size(m.params[i])) for i in bundled]))
            for i, p in enumerate(m.params):      # objects held by structs come before plain object parameters
                if p.dir == d and self.kind(p) in ('small', 'big'):
                    for j, _ in enumerate(self.objects_in(p.type)):
                        w[O].append((i, j))
            for i, p in enumerate(m.params):
                if p.dir != d or i in bundled:
                    continue
                k = self.kind(p)
                if k in ('prim', 'small', 'big'):
                    w[B].append(('fixed', i, self.elem_size(p)))
                elif k in ('buf', 'sbuf'):
                    w[B].append(('var', i, self.elem_size(p)))
                elif k == 'obj':
                    w[O].append((i, 0))
                else:
                    for j in range(p.arr):
                        w[O].append((i, j))
        return w

    def counts(self, m):
        w = self.wire(m)
        return tuple(len(w[k]) for k in ('BI', 'BO', 'OI', 'OO'))

    # ---- language restrictions (used for self-checks of generators)
    def method_ok(self, m):
        names = [p.name for p in m.params]
        if len(set(names)) != len(names):
            return False
        for d in ('in', 'out'):
            arrs = [p for p in m.params if p.dir == d and self.kind(p) == 'objarr']
            objs = [p for p in m.params if p.dir == d and self.kind(p) == 'obj']
            if len(arrs) > 1 or (arrs and objs):
                return False
        for p in m.params:
            if p.type != 'buffer' and not self.is_obj(p.type):
                if isinstance(p.arr, int):
                    return False
                if p.arr == 'u' and p.type not in PRIMS and self.has_objects(p.type):
                    return False
            if self.is_obj(p.type) and p.arr == 'u':
                return False
        return max(self.counts(m)) <= 15

    def deps(self, d):
        """names of types a declaration refers to"""
        if isinstance(d, Struct):
            return [f.type for f in d.fields if f.type not in PRIMS and f.type != 'interface']
        if isinstance(d, Iface):
            r = [d.base] if d.base else []
            for m in d.methods:
                r += [p.type for p in m.params if p.type not in PRIMS and p.type not in ('buffer', 'interface')]
            return r
        return []

    def clone(self):
        return copy.deepcopy(self)


# ------------------------------------------------------------------ printing
from trivia import FREE, WS1, WSONLY, GLUE, dresser
# gap after a token: FREE any trivia incl. none; WS1 one whitespace char then free trivia;
# WSONLY whitespace only (>=1); GLUE nothing


def _needs_sep(a, b):
    return (a[-1].isalnum() or a[-1] == '_') and (b[0].isalnum() or b[0] in '_')


def tok_type(t, arr):
    r = [(t, FREE)]
    if arr is not None:
        r.append(('[', FREE))
        if arr != 'u':
            r.append((str(arr), FREE))
        r.append((']', FREE))
    return r


def tokens_member(m):
    if isinstance(m, Raw):
        return [(m.text, FREE)]
    if isinstance(m, Const):
        return [('const', WS1), (m.type, FREE), (m.name, FREE), ('=', FREE), (m.value, FREE), (';', FREE)]
    if isinstance(m, Err):
        return [('error', WS1), (m.name, FREE), (';', FREE)]
    t = []
    if m.doc is not None:
        t.append(('/**\n' + m.doc + '*/', FREE))
    n = m.attrs if m.attrs is not None else (1 if m.optional else 0)
    for _ in range(n):
        t.append(('#[optional]', WSONLY))
    t += [('method', WS1), (m.name, FREE), ('(', FREE)]
    for i, p in enumerate(m.params):
        if i:
            t.append((',', FREE))
        t.append((p.dir, FREE))
        t += tok_type(p.type, p.arr)
        t.append((p.name, FREE))
    t.append((');', FREE))
    return t


def tokens_decl(d):
    if isinstance(d, Raw):
        return [(d.text, FREE)]
    if isinstance(d, Const):
        return tokens_member(d)
    if isinstance(d, Struct):
        t = [('struct', WS1), (d.name, FREE), ('{', FREE)]
        for f in d.fields:
            t += tok_type(f.type, f.count) + [(f.name, FREE), (';', FREE)]
        return t + [('};', FREE)]
    t = [('interface', WS1), (d.name, FREE)]
    if d.base:
        t += [(':', FREE), (d.base, FREE)]
    t.append(('{', FREE))
    for m in d.members:
        t += tokens_member(m)
    return t + [('};', FREE)]


def tokens_file(f):
    t = []
    for i in f.includes:
        t.append(('include', WSONLY))
        t.append(('"%s"' % i, FREE))
    for d in f.decls:
        t += tokens_decl(d)
    return t


def render(tokens, trivia=None):
    """trivia: callable(gap_kind, prev, next) -> str inserted in a FREE position; None = pretty default"""
    out = []
    if trivia:
        out.append(trivia(FREE, '', tokens[0][0] if tokens else ''))
    for k, (t, gap) in enumerate(tokens):
        out.append(t)
        nxt = tokens[k + 1][0] if k + 1 < len(tokens) else ''
        if trivia is None:
            if gap != FREE:
                out.append(' ')
            elif t in (';', '{', '};', ');') or (t.startswith('"')):
                out.append('\n')
            elif t.startswith('/**'):
                out.append('\n')
            elif nxt not in (';', ',', ')', ');', '[', ']', '(') and t not in ('(', '['):
                out.append(' ')
        else:
            s = trivia(gap, t, nxt)
            if gap == FREE and not s and nxt and _needs_sep(t, nxt):
                s = ' '
            out.append(s)
    return ''.join(out)


def print_file(f, trivia=None):
    if trivia is None and f.dress is not None:
        trivia = dresser(f.dress)
    return render(tokens_file(f), trivia)


def write_set(fs, root):
    for f in fs.files:
        p = os.path.join(root, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as h:
            h.write(print_file(f))
    return os.path.join(root, fs.files[0].path)


# ------------------------------------------------------------------ (de)serialisation for replay files
def to_json(o):
    if dataclasses.is_dataclass(o):
        d = {'_': type(o).__name__}
        for f in dataclasses.fields(o):
            d[f.name] = to_json(getattr(o, f.name))
        return d
    if isinstance(o, (list, tuple)):
        return [to_json(x) for x in o]
    return o


_CLS = {c.__name__: c for c in (Field, Struct, Const, Err, Param, Method, Iface, Raw, File, FileSet)}


def from_json(j):
    if isinstance(j, dict) and '_' in j:
        return _CLS[j['_']](**{k: from_json(v) for k, v in j.items() if k != '_'})
    if isinstance(j, list):
        return [from_json(x) for x in j]
    return j


# ------------------------------------------------------------------ validity (for shrinking and self-checks)
def valid(fs):
    """Does the file set obey every documented restriction (structural part)?"""
    names = {}
    for _, d in fs.all_decls():
        if isinstance(d, Raw):
            return False
        ns = d.name
        if ns in names:
            return False
        names[ns] = d
    # includes: acyclic and closed reachability
    by = {f.path: f for f in fs.files}

    def reach(f):
        seen, st = [f.path], [f]
        while st:
            x = st.pop()
            for inc in x.includes:
                if os.path.dirname(inc):
                    p = os.path.normpath(os.path.join(os.path.dirname(x.path), inc))
                else:
                    p = next((c.path for c in fs.files if os.path.basename(c.path) == inc), None)
                y = by.get(p)
                if y is None:
                    return None
                if y.path not in seen:
                    seen.append(y.path)
                    st.append(y)
        return seen
    r = reach(fs.files[0])
    if r is None or set(r) != set(by):
        return False
    try:
        for s in fs.structs():
            if not s.fields or len({f.name for f in s.fields}) != len(s.fields):
                return False
            if not fs.layout_ok(s):
                return False
        for i in fs.ifaces():
            seen, c = set(), i
            while c:
                if c.name in seen:
                    return False
                seen.add(c.name)
                if c.base:
                    c = fs.iface(c.base)
                    if c is None:
                        return False
                else:
                    c = None
            fm = [m.name for _, _, m in fs.flat_methods(i)]
            ce = [e.name for x in fs.chain(i) for e in x.errors + x.consts]
            if len(set(fm)) != len(fm) or len(set(ce)) != len(ce):
                return False
            for m in i.methods:
                for p in m.params:
                    if p.type not in PRIMS and p.type not in ('interface', 'buffer') and p.type not in names:
                        return False
                if not fs.method_ok(m):
                    return False
    except (ValueError, AttributeError, RecursionError):
        return False
    return True
