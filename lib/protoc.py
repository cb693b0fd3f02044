"""C29: the protobuf compiler.  Random schemas go through noise-protoc (built
from /repo with sanitizers); the code it makes is compiled, linked with
harness/h_schema.cpp and driven with random values; schemas with an injected
error must be refused."""
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import build as B

SRC = f'{B.REPO}/tools/protoc'
KINDS = ['int32', 'uint32', 'int64', 'uint64', 'sint32', 'sint64', 'sfixed32', 'fixed32', 'sfixed64', 'fixed64', 'float', 'double', 'bool', 'string', 'bytes']
Z = {k: 'Z_' + z for k, z in zip(KINDS, 'I32 U32 I64 U64 S32 S64 SF32 F32 SF64 F64 FLT DBL BOOL STR BYTES'.split())}
PACKABLE = set(KINDS[:13])
KEYWORDS = set('''syntax message repeated required optional reserved to enum option import public map package double float int32 int64
uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes true false'''.split())
CWORDS = set('''auto break case char const continue default do double else enum extern float for goto if inline int long register
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while asm typeof linux unix
class namespace template this new delete public private protected virtual operator friend using try catch throw bool true false
and or not xor bitand bitor compl explicit export mutable typeid typename wchar_t nullptr constexpr decltype noexcept thread_local
alignas alignof char8_t char16_t char32_t concept consteval constinit requires co_await co_return co_yield static_assert
static_cast dynamic_cast const_cast reinterpret_cast and_eq or_eq not_eq xor_eq'''.split())
ERRS = 'ASAN_OPTIONS', 'detect_leaks=0:exitcode=99:abort_on_error=0'


# ---------------------------------------------------------------- building
def tool():
    """noise-protoc under the sanitizers"""
    d = f'{B.BUILD}/{B.tree_hash()}/protoc'
    exe = f'{d}/noise-protoc'
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    for f in ('proto3-grammar.y', 'proto3-lexer.l', 'proto3-ast.h'):
        shutil.copy(f'{SRC}/{f}', d)
    B.run(['bison', '-y', '-d', '-Wnone', '-o', 'proto3-grammar.c', 'proto3-grammar.y'], cwd=d)
    B.run(['flex', '-o', 'proto3-lexer.c', 'proto3-lexer.l'], cwd=d)
    cc, cxx, flags = B.FLAVOURS['asan']
    src = [f'{SRC}/{f}' for f in B.am_sources(f'{SRC}/Makefile.am', False, False) if f.endswith('.c')]
    B.run([cc] + B._quiet() + flags + [f'-I{d}', f'-I{SRC}'] + src + [f'{d}/proto3-grammar.c', f'{d}/proto3-lexer.c', '-o', exe + '.tmp'])
    os.rename(exe + '.tmp', exe)
    return exe


# ---------------------------------------------------------------- schemas
class Msg:
    def __init__(self, name):
        self.name, self.items = name, []       # Msg, Enum, Field or raw text


class Enum:
    def __init__(self, name, values):
        self.name, self.values = name, values


class Field:
    def __init__(self, **k):
        self.__dict__.update(k)


class Schema:
    def __init__(self):
        self.package, self.items, self.head = '', [], ''


def walk(items, scope=''):
    for x in items:
        if isinstance(x, (Msg, Enum)):
            full = f'{scope}.{x.name}' if scope else x.name
            yield x, full
            if isinstance(x, Msg):
                yield from walk(x.items, full)


def resolve_here(names, scope, ref):
    """the tool's rule: the whole name, innermost scope first"""
    parts = scope.split('.') if scope else []
    for k in range(len(parts), -1, -1):
        n = '.'.join(parts[:k] + [ref])
        if n in names:
            return n
    return None


def resolve_std(names, scope, ref):
    """protobuf's rule: innermost scope in which the first part exists"""
    parts = scope.split('.') if scope else []
    first = ref.split('.')[0]
    pre = set()
    for n in names:
        p = n.split('.')
        for i in range(1, len(p) + 1):
            pre.add('.'.join(p[:i]))
    for k in range(len(parts), -1, -1):
        if '.'.join(parts[:k] + [first]) in pre:
            n = '.'.join(parts[:k] + [ref])
            return n if n in names else None
    return None


CONS, VOW = 'bcdfghjklmnprstvwz', 'aeiou'


def word(r, n=2):
    return ''.join(r.choice(CONS) + r.choice(VOW) for _ in range(n))


def type_name(r):
    s = word(r, r.randint(1, 3)).capitalize()
    if r.random() < .2:
        s += str(r.randint(0, 99))
    if r.random() < .15:
        s += '_' + word(r).capitalize()
    if r.random() < .02:
        s += 'X' * r.choice([60, 250, 3000])
    return s


PARAM = ['obj', 'index', 'value', 'size', 'tag', 'pbuf', 'err', 'end_posn', 'end_packed', 'len', 'count', 'max', 'data', 'name', 'key', 'id', 'type', 'x']


def field_name(r):
    c = r.random()
    if c < .3:
        return r.choice(PARAM)
    s = word(r, r.randint(1, 3))
    if r.random() < .3:
        s += '_' + word(r, 1)
    if r.random() < .2:
        s += str(r.randint(0, 20))
    if r.random() < .1:
        s = s.upper() if s.upper() not in CWORDS else s
    if r.random() < .05:
        s += '_'
    return s


def c_name(full):
    return full.replace('.', '_')


def gen_schema(r, prefix, size):
    """a valid schema; every C name it produces starts with something unique to `prefix`"""
    s = Schema()
    s.prefix = prefix
    if r.random() < .6:
        s.package = r.choice([prefix.lower(), f'{prefix.lower()}.{word(r)}', f'{prefix.lower()}.{word(r)}.v{r.randint(1, 9)}'])
    top = '' if s.package else prefix
    n = r.randint(1, 2 + size)
    inner = [type_name(r) for _ in range(3)]       # names used again in several scopes

    def gen_enum(name):
        vals, used = [], set()
        for i in range(r.randint(1, 5)):
            v = r.choice([word(r).upper(), word(r).capitalize(), f'{word(r).upper()}_{r.randint(0, 9)}'])
            if v in used:
                continue
            used.add(v)
            vals.append((v, 0 if i == 0 and r.random() < .9 else r.choice([i, r.randint(0, 300), 2147483647, r.randint(0, 2147483647)])))
        return Enum(name, vals)

    def gen_msg(name, depth):
        m = Msg(name)
        for _ in range(r.choice([0, 0, 1, 2]) if depth < 3 else 0):
            nm = r.choice(inner) if r.random() < .6 else type_name(r)
            if any(isinstance(x, (Msg, Enum)) and x.name == nm for x in m.items):
                continue
            m.items.append(gen_enum(nm) if r.random() < .35 else gen_msg(nm, depth + 1))
        return m
    for _ in range(n):
        nm = top + type_name(r)
        if any(x.name == nm for x in s.items):
            continue
        s.items.append(gen_enum(nm) if r.random() < .2 else gen_msg(nm, 0))
    if not any(isinstance(x, Msg) for x in s.items):
        s.items.append(Msg(top + type_name(r) + 'M'))
    pkg = s.package
    names = {f: x for x, f in walk(s.items, pkg)}
    cn = [c_name(f) for f in names]
    if len(set(cn)) != len(cn):
        return gen_schema(r, prefix, size)
    # fields, now that all types are known
    for f, x in list(names.items()):
        if isinstance(x, Msg):
            gen_fields(r, x, f, names, size)
    if not unique(s):
        return gen_schema(r, prefix, size)
    decorate(r, s)
    return s


def gen_fields(r, m, scope, names, size):
    tags, used = set(), set()
    for _ in range(r.choice([1, 2, 3, 5, 8, 15 if size > 2 else 4])):
        nm = field_name(r)
        if nm in KEYWORDS or nm in CWORDS or nm in used:
            continue
        tag = r.choice([r.randint(1, 16), r.randint(1, 40), r.choice([15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870911]), r.randint(1, 18999), r.randint(20000, 536870911)])
        if tag in tags:
            continue
        qual = r.choice(['', '', 'optional', 'required', 'repeated', 'repeated'])
        opt, ref, target = '', None, None
        if r.random() < .3 and names:
            target = r.choice(sorted(names))
            parts = target.split('.')
            refs = ['.'.join(parts[k:]) for k in range(len(parts))]
            refs = [x for x in refs if resolve_here(names, scope, x) == target and resolve_std(names, scope, x) == target
                    and not any(p in KEYWORDS for p in x.split('.'))]
            if not refs:
                continue
            ref = r.choice(refs)
            typ = 'enum' if isinstance(names[target], Enum) else 'msg'
            if r.random() < .15:
                opt = r.choice(['deprecated=true', 'packed=false'])
        else:
            typ = r.choice(KINDS)
            if r.random() < .4:
                opt = r.choice(['packed=false', 'packed=true', 'packed=false', 'deprecated=true', 'note="a ] b"', 'level=12', 'kind=Abc'])
                if typ not in PACKABLE and qual == 'repeated' and opt == 'packed=true':
                    opt = 'packed=false'
        tags.add(tag)
        used.add(nm)
        m.items.append(Field(name=nm, tag=tag, qual=qual, type=typ, ref=ref, target=target, opt=opt))
    if not any(isinstance(x, Field) for x in m.items):
        m.items.append(Field(name='only', tag=1, qual='', type='int32', ref=None, target=None, opt=''))
    r.shuffle(m.items)


def symbols(s):
    """every C identifier and macro the schema gives rise to"""
    for x, f in walk(s.items, s.package):
        c = c_name(f)
        if isinstance(x, Enum):
            for v, _ in x.values:
                yield f'{c}_{v}'
            continue
        yield c
        yield '_' + c
        for k in ('new', 'free', 'read', 'write'):
            yield f'{c}_{k}'
        for y in x.items:
            if isinstance(y, Field):
                for k in ('clear', 'has', 'get', 'set', 'count', 'get_at', 'get_size', 'get_size_at', 'add', 'insert', 'get_new'):
                    yield f'{c}_{k}_{y.name}'


def unique(s):
    l = list(symbols(s))
    if len(set(l)) != len(l):
        return False
    for x, f in walk(s.items, s.package):
        if isinstance(x, Msg):
            mem = [y.name + e for y in x.items if isinstance(y, Field) for e in ('', '_count_', '_max_', '_size_')]
            if len(set(mem)) != len(mem):
                return False
    return True


def decorate(r, s):
    s.head = r.choice(['syntax="proto3";', 'syntax = "proto3" ;', '', '// first line\nsyntax="proto3";'])
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        s.head += '\n' + r.choice(['import "other.proto";', 'import public "a/b.proto";'])
    if r.random() < .3:
        s.items.insert(r.randint(0, len(s.items)), r.choice(['option java_package = "com.example";', 'option optimize_for = SPEED;', 'option cc_enable_arenas = true;', 'option level = 3;']))
    for x, f in walk(s.items, s.package):
        if isinstance(x, Msg) and r.random() < .25:
            x.items.insert(r.randint(0, len(x.items)), r.choice(['reserved 100, 200 to 300;', 'reserved "old", "older";', 'reserved 536870911;', 'option map_entry = false;', '// a comment; with { tokens }\n']))
    s.style = r.randrange(1 << 30)


def emit(s):
    r = random.Random(s.style)

    def sp():
        return r.choice([' ', ' ', ' ', '  ', '\t', '\n', ' // note\n', ' \r\n'])

    def o():
        return r.choice(['', '', ' ', sp()])
    out = [s.head, '\n']
    if s.package:
        out.append(f'package{sp()}{s.package};\n')

    def item(x, ind):
        if isinstance(x, str):
            return [ind, x, '\n']
        if isinstance(x, Field):
            t = x.ref or x.type
            q = x.qual + sp() if x.qual else ''
            op = f'{o()}[{o()}{x.opt}{o()}]' if x.opt else ''
            return [ind, f'{q}{t}{sp()}{x.name}{o()}={o()}{x.tag}{op}{o()};\n']
        if isinstance(x, Enum):
            return [ind, f'enum{sp()}{x.name}{o()}{{\n'] + [f'{ind}  {v}{o()}={o()}{n}{o()};\n' for v, n in x.values] + [ind, '}\n']
        l = [ind, f'message{sp()}{x.name}{o()}{{', sp()]
        for y in x.items:
            l += item(y, ind + '    ')
        return l + [ind, '}\n']
    for x in s.items:
        out += item(x, '')
    return ''.join(out)


def qual_of(f):
    if f.qual == 'required':
        return 'Q_REQ'
    if f.qual != 'repeated':
        return 'Q_OPT'
    return 'Q_PACKED' if (f.type in PACKABLE or f.type == 'enum') and f.opt != 'packed=false' else 'Q_REP'


def glue(s, k):
    """the table that describes schema number k to h_schema.cpp"""
    out = [f'#include "schema.h"\n#include "s{k}.h"\n#define F(x) ((SFn)(x))\n']
    names = list(walk(s.items, s.package))
    # the order of the messages is the source order
    msgs = [(x, f) for x, f in names if isinstance(x, Msg)]
    idx = {f: i for i, (x, f) in enumerate(msgs)}
    table, consts = [], []
    for i, (m, full) in enumerate(msgs):
        c, rows = c_name(full), []
        for f in m.items:
            if not isinstance(f, Field):
                continue
            kind = 'Z_MSG' if f.type == 'msg' else 'Z_ENUM' if f.type == 'enum' else Z[f.type]
            rep = f.qual == 'repeated'
            num = f.type not in ('msg', 'string', 'bytes')
            have = ['clear', 'has']
            if rep:
                have += ['count', 'get_at', 'add'] + ([] if num else ['insert'] if f.type == 'msg' else ['get_size_at'])
            else:
                have += ['get'] + (['set'] if num else ['get_new'] if f.type == 'msg' else ['get_size', 'set'])
            row = [f'F({c}_{a}_{f.name})' if a in have else '0' for a in
                   ('clear', 'has', 'get', 'set', 'count', 'get_at', 'get_size', 'get_size_at', 'add', 'insert', 'get_new')]
            rows.append('{"%s",%s,%s,%d,%d,%s}' % (f.name[:60], kind, qual_of(f), f.tag, idx.get(f.target, -1), ','.join(row)))
        out.append(f'static const struct SField f{i}[] = {{\n' + ',\n'.join(rows) + '};\n')
        table.append('{"%s",%d,f%d,%s}' % (full[:80], len(rows), i, ','.join(f'F({c}_{a})' for a in ('new', 'free', 'write', 'read'))))
    for x, f in names:
        if isinstance(x, Enum):
            consts += ['{"%s",%s,%dul}' % (f'{f}.{v}'[:80], f'{c_name(f)}_{v}', n) for v, n in x.values]
    out.append('static const struct SMsg m[] = {' + ',\n'.join(table) + '};\n')
    out.append('static const struct SConst c[] = {' + ',\n'.join(consts + ['{0,0,0}']) + '};\n')
    out.append('const struct SSchema schema_%d = {"s%d",%d,m,%d,c};\n' % (k, k, len(msgs), len(consts)))
    return ''.join(out)


# ---------------------------------------------------------------- running the tool
def protoc(exe, text, d, name='s', extra=()):
    """-> (exit status, stderr, C text or None, header text or None)"""
    p, c, h = f'{d}/{name}.proto', f'{d}/{name}.c', f'{d}/{name}.h'
    for f in (c, h):
        if os.path.exists(f):
            os.unlink(f)
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    try:
        r = subprocess.run([exe, '-c', c, '-h', h] + list(extra) + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                           env=dict(os.environ, **{ERRS[0]: ERRS[1]}), cwd=d)
        rc, err = r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    rd = lambda q: open(q, errors='surrogateescape').read() if os.path.exists(q) else None
    return rc, err, rd(c), rd(h)


INC = [f'-I{B.REPO}/include', f'-I{B.VERIF}/harness']


def cc_object(d, src, obj):
    cc, cxx, flags = B.FLAVOURS['asan']
    return subprocess.run([cc, '-std=gnu99', '-w'] + flags + INC + [f'-I{d}', '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')


def try_valid(exe, s, d, k, obj=False):
    """None if the schema is accepted and its code compiles, else what is wrong"""
    text = emit(s)
    rc, err, c, h = protoc(exe, text, d, f's{k}')
    if rc != 0 or c is None or h is None:
        return f'noise-protoc ends with {rc} on a valid schema: {err[-600:]}'
    if obj:
        a = cc_object(d, f'{d}/s{k}.c', f'{d}/s{k}.o')
    else:
        a = subprocess.run(['clang', '-std=gnu99', '-w', '-fsyntax-only'] + INC + [f'-I{d}', f'{d}/s{k}.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if a.returncode:
        return 'the code made for a valid schema does not compile: ' + a.stdout[:800]
    with open(f'{d}/g{k}.c', 'w') as f:
        f.write(glue(s, k))
    if obj:
        a = cc_object(d, f'{d}/g{k}.c', f'{d}/g{k}.o')
    else:
        a = subprocess.run(['clang', '-std=gnu99', '-w', '-fsyntax-only'] + INC + [f'-I{d}', f'{d}/g{k}.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if a.returncode:
        return 'the code made for a valid schema lacks or changes part of its interface: ' + a.stdout[:800]
    with open(f'{d}/x{k}.cpp', 'w') as f:
        f.write(f'#include "s{k}.h"\n')
    a = subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only'] + INC + [f'-I{d}', f'{d}/x{k}.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if a.returncode:
        return 'the header made for a valid schema does not work in C++: ' + a.stdout[:800]
    return None


def shrink(exe, s, d, what):
    """greedily drop parts while the schema still fails in the same way"""
    key = what.split(':')[0]

    def containers(items, acc):
        acc.append(items)
        for x in items:
            if isinstance(x, Msg):
                containers(x.items, acc)
        return acc

    def valid():
        names = {f: x for x, f in walk(s.items, s.package)}
        for f, x in names.items():
            if isinstance(x, Enum) and not x.values:
                return False
            if isinstance(x, Msg):
                fl = [y for y in x.items if isinstance(y, Field)]
                if not fl or any(y.target and resolve_here(names, f, y.ref) != y.target for y in fl):
                    return False
        return True
    again = True
    budget = 150
    while again and budget > 0:
        again = False
        for items in containers(s.items, []) + [x.values for x, f in walk(s.items, s.package) if isinstance(x, Enum)]:
            i = 0
            while i < len(items) and budget > 0:
                x = items.pop(i)
                budget -= 1
                w = try_valid(exe, s, d, 0) if valid() else None
                if w and w.split(':')[0] == key:
                    again, what = True, w
                else:
                    items.insert(i, x)
                    i += 1
    return what


# ---------------------------------------------------------------- errors
def breakit(r, s):
    """inject one error into a valid schema -> (kind, text)"""
    import copy
    s = copy.deepcopy(s)
    s.head = 'syntax="proto3";'
    s.items = [x for x in s.items if not isinstance(x, str)]
    msgs = [x for x, f in walk(s.items, s.package) if isinstance(x, Msg)]
    enums = [x for x, f in walk(s.items, s.package) if isinstance(x, Enum)]
    m = r.choice(msgs)
    fields = [x for x in m.items if isinstance(x, Field)]
    f = copy.deepcopy(r.choice(fields))
    free = max(x.tag for x in fields) + 1
    free = free if free < 536870912 and not 19000 <= free <= 19999 else next(t for t in range(1, 99) if all(t != x.tag for x in fields))
    pos = r.randint(0, len(m.items))
    kinds = ['field twice', 'tag twice', 'tag out of range', 'packed', 'packed value', 'empty message', 'empty enum', 'type twice', 'map', 'syntax version', 'token dropped', 'garbage', 'package twice', 'stray text']
    if enums:
        kinds += ['enum value twice', 'type twice']
    k = r.choice(kinds)
    if k == 'field twice':
        f.tag = free
        m.items.insert(pos, f)
    elif k == 'tag twice':
        f.name = f.name + '_x9'
        m.items.insert(pos, f)
    elif k == 'tag out of range':
        f.name, f.tag = f.name + '_x9', r.choice([0, 19000, 19500, 19999, 536870912, 1 << 32, (1 << 32) + 1, 1 << 62, 18446744073709551615, 99999999999999999999999])
        m.items.insert(pos, f)
    elif k in ('packed', 'packed value'):
        m.items.insert(pos, Field(name='x9', tag=free, qual='repeated', type=r.choice(['string', 'bytes'] if k == 'packed' else KINDS[:13]), ref=None, target=None,
                                  opt='packed=true' if k == 'packed' else r.choice(['packed="true"', 'packed=1', 'packed=yes'])))
    elif k == 'empty message':
        s.items.append(Msg(s.prefix + 'Zz9'))
    elif k == 'empty enum':
        s.items.append(Enum(s.prefix + 'Zz9', []))
    elif k == 'type twice':
        x = r.choice([x for x in s.items if isinstance(x, (Msg, Enum))])
        y = Enum(x.name, [('ZQ', 0)]) if r.random() < .5 else Msg(x.name)
        if isinstance(y, Msg):
            y.items.append(Field(name='a', tag=1, qual='', type='int32', ref=None, target=None, opt=''))
        s.items.insert(r.randint(0, len(s.items)), y)
    elif k == 'map':
        m.items.insert(pos, f'map<string, int32> x9 = {free};')
    elif k == 'syntax version':
        s.head = 'syntax="proto2";'
    elif k == 'package twice':
        s.package = s.package or 'first'
        s.items.insert(r.randint(0, len(s.items)), 'package again;')
    elif k == 'enum value twice':
        e = r.choice(enums)
        e.values.insert(r.randint(0, len(e.values)), (r.choice(e.values)[0], 5))
    elif k == 'stray text':
        s.items.insert(r.randint(0, len(s.items)), r.choice(['int32 x = 1;', 'service S { }', '}', '{', ';;', 'Foo', '42;', '"text"', 'required', 'message { int32 a = 1; }', 'message 3 { int32 a = 1; }']))
    elif k == 'garbage':
        m.items.insert(pos, r.choice(['int32 = 5;', 'int32 x9 5;', 'int32 x9 = ;', 'int32 x9 = "1";', 'repeated repeated int32 x9 = 5;', 'oneof x { int32 a = 77; }', 'x9 = 7;', '@;', 'int32 x9 = -5;', 'int32 x9 = 900000 [packed=true;', 'reserved;', 'reserved 0;', 'reserved 536870912;', 'enum { A = 0; }', 'Foo. x9 = 99;', 'int32 message = 77;']))
    text = emit(s)
    if k == 'token dropped':
        # a token the grammar cannot do without
        at = [i for i, c in enumerate(text) if c in '={};']
        i = r.choice(at)
        cand = text[:i] + text[i + 1:]
        if '//' in text or 'option' in text or 'import' in text or 'syntax' not in text or '"' in text[text.find(';'):]:
            return breakit(r, s)
        text = cand
    return k, text


def mangle(r, text):
    """arbitrary damage; only robustness is judged"""
    b = bytearray(text.encode())
    for _ in range(r.randint(1, 6)):
        c = r.randrange(6)
        i = r.randrange(len(b) + 1)
        if c == 0 and b:
            b[min(i, len(b) - 1)] = r.randrange(256)
        elif c == 1:
            b[i:i] = bytes(r.choice([b'"', b'//', b'{', b'}', b';', b'=', b'[', b'<', b'message ', b'enum ', b'packed', b'\0', b'\n', b'.', b'99999999999999999999', b'repeated ', b'syntax', b'map<', b'\xff']))
        elif c == 2:
            j = min(len(b), i + r.randint(1, 30))
            del b[i:j]
        elif c == 3:
            del b[i:]
        elif c == 4:
            j = min(len(b), i + r.randint(1, 60))
            b[i:i] = b[i:j] * r.randint(1, 4)
        else:
            b[i:i] = b[i:i + 12] * r.choice([1, 100, 2000])
    return bytes(b)


def judge_refused(exe, text, d, name='s'):
    rc, err, c, h = protoc(exe, text, d, name)
    if rc == 0:
        return 'a schema with an error is accepted'
    if rc != 1:
        return f'noise-protoc ends with {rc} on a schema with an error: {err[-600:]}'
    if not re.search(r'\.proto:\d+: \S', err):
        return f'no error message for a refused schema: {err[-200:]!r}'
    if c is not None or h is not None:
        return 'output files are left behind for a refused schema'


def judge_mangled(exe, text, d, name='s'):
    rc, err, c, h = protoc(exe, text, d, name)
    if rc not in (0, 1):
        return f'noise-protoc ends with {rc} on a damaged schema: {err[-900:]}'
    if rc == 1 and (c is not None or h is not None):
        return 'output files are left behind for a refused schema'
    if rc == 1 and not err.strip():
        return 'no error message for a refused schema'
    if rc == 0 and (c is None or h is None):
        return 'no output for an accepted schema'


def shrink_bytes(judge, exe, text, d, what):
    b = text if isinstance(text, bytes) else text.encode()
    key, n, budget = what.split(':')[0], max(1, len(b) // 2), 200
    while n >= 1 and budget > 0:
        i = 0
        while i < len(b) and budget > 0:
            cand = b[:i] + b[i + n:]
            budget -= 1
            w = judge(exe, cand, d)
            if w and w.split(':')[0] == key:
                b, what = cand, w
            else:
                i += n
        n //= 2
    return b, what


# ---------------------------------------------------------------- the check
def schemas(seed, count):
    r = random.Random(f'schemas {seed}')
    return [gen_schema(r, f'S{i}', min(6, i // 4)) for i in range(count)]


def link(d, count):
    with open(f'{d}/list.c', 'w') as f:
        f.write('#include "schema.h"\n' + ''.join(f'extern const struct SSchema schema_{k};\n' for k in range(count)))
        f.write('const struct SSchema *const schema_list[] = {' + ','.join(f'&schema_{k}' for k in range(count)) + f'}};\nconst int schema_count = {count};\n')
    a = cc_object(d, f'{d}/list.c', f'{d}/list.o')
    assert a.returncode == 0, a.stdout
    cc, cxx, flags = B.FLAVOURS['asan']
    objs = B.harness_objs('asan', SOURCES)
    lib = B.build_lib('ref', 'asan')
    exe = f'{d}/schema'
    B.run([cxx] + flags + objs + [f'{d}/{x}{k}.o' for k in range(count) for x in 'sg'] + [f'{d}/list.o', lib] + B.WRAPS + B.libs_for('ref') + ['-o', exe])
    return exe


SOURCES = B.COMMON + ['nutil.cpp', 'h_schema.cpp']
RULE = ('schemas: random schemas (all scalar types, enums, nesting, recursion, packages, options, comments, scoped type names) must be accepted, their code compiled as C and its header as C++ with the whole interface present; '
        'refused: a valid schema with one injected error must be refused with a message and no output; damaged: bytes of a schema altered at random, the tool must end normally; '
        'non-trivial: every schema, all distinct by their text')


def save(prop, replays, mode, text, what):
    b = text if isinstance(text, bytes) else text.encode()
    name = f'{replays}/{prop}-{mode}-{hashlib.sha256(b).hexdigest()[:8]}.txt'
    os.makedirs(replays, exist_ok=True)
    with open(name, 'w') as f:
        f.write(f'prop: {prop}\nkind: python\nmodule: protoc\nmode: {mode}\nhex: {b.hex()}\n\n{what}\n\n' + b.decode('utf-8', 'replace') + '\n')
    print(f'  {what}'[:1200])
    return f'VIOLATION property={prop} replay={name}'


def check(prop, tier, res):
    import driver
    quick = tier == 'quick'
    with B.Lock():
        B.prune()
        B.prefetch([('ref', 'asan', SOURCES)])
        exe = tool()
        B.harness_objs('asan', SOURCES)
        B.build_lib('ref', 'asan')
    rounds = 1 if quick else 10
    count, bad, dmg = (40, 250, 250) if quick else (64, 1500, 3000)
    t = float(os.environ.get('VERIF_TIME', 14 if quick else 25))
    for rd in range(rounds):
        if one_round(prop, res, exe, driver, f'{driver.seed()}' if quick else f'{driver.seed()}/{rd}', count, bad if rd == 0 else 0, dmg if rd == 0 else 0, t, quick):
            return


def one_round(prop, res, exe, driver, seed, count, bad, dmg, t, quick=True):
    d = tempfile.mkdtemp(prefix='protoc')
    pool = ThreadPoolExecutor(8)
    try:
        ss = schemas(seed, count)

        def one(k):
            return try_valid(exe, ss[k], d, k, True)
        for k, w in enumerate(pool.map(one, range(count))):
            if w:
                dd = f'{d}/shrink'
                os.makedirs(dd)
                w2 = shrink(exe, ss[k], dd, w)
                # (a table for number 0 is made from the shrunk schema)
                return fail_valid(prop, driver.REPLAYS, ss[k], w2, res)
        res.evaluations += count
        res.nontrivial += count
        res.distinct += len({emit(s) for s in ss})
        res.per_target['schemas'] = res.per_target.get('schemas', 0) + count
        for s in ss:
            for x, f in walk(s.items, s.package):
                for y in x.items if isinstance(x, Msg) else []:
                    if isinstance(y, Field):
                        q = qual_of(y)
                        lab = f'{ {"Q_OPT": "", "Q_REQ": "required ", "Q_REP": "repeated ", "Q_PACKED": "packed "}[q]}{y.type}'
                        res.labels[lab] = res.labels.get(lab, 0) + 1
        res.samples += [re.sub(r'\s+', ' ', emit(s))[:400] for s in ss[:2]]
        # license text and a path in the output names
        r = random.Random(f'errors {seed}')
        jobs = []
        for i in range(bad):
            k, text = breakit(r, r.choice(ss[:24]))
            jobs.append(('refused', k, text))
        for i in range(dmg):
            jobs.append(('damaged', 'bytes', mangle(r, emit(r.choice(ss[:24])))))

        def two(j):
            i, (mode, k, text) = j
            dd = f'{d}/e{i}'
            os.makedirs(dd)
            w = (judge_refused if mode == 'refused' else judge_mangled)(exe, text, dd)
            shutil.rmtree(dd, ignore_errors=True)
            return w
        texts = set()
        for (mode, k, text), w in zip(jobs, pool.map(two, enumerate(jobs))):
            res.evaluations += 1
            texts.add(text)
            lab = f'{mode}: {k}'
            res.labels[lab] = res.labels.get(lab, 0) + 1
            res.per_target[mode] = res.per_target.get(mode, 0) + 1
            if w:
                dd = f'{d}/shrink'
                os.makedirs(dd, exist_ok=True)
                if mode == 'damaged':
                    text, w = shrink_bytes(judge_mangled, exe, text, dd, w)
                res.violations.append(save(prop, driver.REPLAYS, mode, text, f'{w} ({k})'))
                return True
        res.nontrivial += len(texts)
        res.distinct += len(texts)
        res.samples += [f'{k}: ' + re.sub(r'\s+', ' ', text)[-200:] for mode, k, text in jobs[:2]]
        w = license_file(exe, ss[0], d, r)
        if w:
            res.violations.append(save(prop, driver.REPLAYS, 'license', emit(ss[0]), w))
            return True
        w = no_room(exe, ss, d, r, 24 if quick else 120)
        res.evaluations += 24 if quick else 120
        res.labels['outputs with no room'] = res.labels.get('outputs with no room', 0) + (24 if quick else 120)
        if w:
            res.violations.append(save(prop, driver.REPLAYS, 'noroom', w[0], w[1]))
            return True
        res.rule(RULE)
        # values
        x = link(d, count)
        rep = f'{d}/replays'
        before = len(res.violations)
        driver.run_harness(x, 'ref', prop, res, t, t * 8 + 60, 300, [], rep)
        for i in range(before, len(res.violations)):
            m = re.search(r'replay=(\S+)', res.violations[i])
            name = f'{driver.REPLAYS}/{os.path.basename(m.group(1))}'
            os.makedirs(driver.REPLAYS, exist_ok=True)
            with open(name, 'w') as f:
                f.write(f'kind: python\nmodule: protoc\nmode: values\nschemaseed: {seed}\nschemacount: {count}\n' + open(m.group(1)).read())
            res.violations[i] = f'VIOLATION property={prop} replay={name}'
        return bool(res.violations)
    finally:
        pool.shutdown()
        shutil.rmtree(d, ignore_errors=True)


def license_file(exe, s, d, r):
    lines = [''.join(r.choice('abc XYZ().,-0/') for _ in range(r.randint(0, 90))).replace('*/', '').replace('/*', '') for _ in range(r.randint(1, 9))]
    with open(f'{d}/LICENSE', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    rc, err, c, h = protoc(exe, emit(s), d, 'lic', ['-l', f'{d}/LICENSE'])
    if rc != 0 or c is None or h is None:
        return f'with a license file: status {rc} {err[-300:]}'
    for t in (c, h):
        if not all(l.strip() in t for l in lines):
            return 'the license text is missing from the output'
    a = subprocess.run(['clang', '-std=gnu99', '-w', '-fsyntax-only'] + INC + [f'-I{d}', f'{d}/lic.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if a.returncode:
        return 'the code with a license text does not compile: ' + a.stdout[:500]
    rc, err, c, h = protoc(exe, 'x', d, 'lic', ['nonsense', 'more'])
    if rc != 1:
        return f'two input files: status {rc}'
    r = subprocess.run([exe, '-c', f'{d}/o.c', '-h', f'{d}/o.h', f'{d}/missing.proto'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    if r.returncode != 1 or 'missing.proto' not in r.stdout:
        return f'a missing input file: status {r.returncode}, {r.stdout!r}'
    s2 = f'{d}/nodir/o.c'
    r = subprocess.run([exe, '-c', s2, '-h', f'{d}/o.h', f'{d}/s0.proto'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    if r.returncode != 1 or s2 not in r.stdout:
        return f'an output file that cannot be made: status {r.returncode}, {r.stdout!r}'


def judge_room(exe, text, d, how, limit=0):
    """the outputs cannot be written in full: it must be said, and nothing be left that looks finished"""
    import resource, signal
    c, h = f'{d}/r.c', f'{d}/r.h'
    with open(f'{d}/r.proto', 'w') as f:
        f.write(text)
    for f in (c, h):
        if os.path.lexists(f):
            os.unlink(f)
    full = {'c': c, 'h': h}.get(how)
    if full:
        os.symlink('/dev/full', full)  # (removing the output removes the link)

    def pre():
        if how == 'limit':
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    r = subprocess.run([exe, '-c', c, '-h', h, f'{d}/r.proto'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=d, preexec_fn=pre, env=dict(os.environ, **{ERRS[0]: ERRS[1]}))
    if r.returncode != 1 or not r.stdout.strip():
        return f'the output does not fit ({how} {limit}): status {r.returncode}, {r.stdout[-200:]!r}'
    for f in (c, h):
        if os.path.isfile(f):
            return f'the output does not fit ({how} {limit}): a cut-off output file is left behind'


def no_room(exe, ss, d, r, count):
    for i in range(count):
        text = emit(r.choice(ss))
        rc, err, c, h = protoc(exe, text, d, 'room')
        how = r.choice(['c', 'h', 'limit', 'limit'])
        limit = r.randrange(r.choice([len(c), len(h), 200]))
        w = judge_room(exe, text, d, how, limit)
        if w:
            return f'{how} {limit}\n{text}', w


def fail_valid(prop, replays, s, what, res):
    import pickle
    name_text = emit(s)
    v = save(prop, replays, 'schema', name_text, what)
    path = v.split('replay=')[1]
    with open(path) as f:
        t = f.read()
    with open(path, 'w') as f:
        f.write(t.replace('\nmode: schema\n', f'\nmode: schema\npickle: {pickle.dumps(s).hex()}\n', 1))
    res.violations.append(v)
    return True


def replay(path):
    import driver, pickle
    text = open(path, errors='replace').read()
    get = lambda k: (re.search(rf'^{k}: (\S*)', text, re.M) or [None, None])[1]
    with B.Lock():
        exe = tool()
        B.harness_objs('asan', SOURCES)
        B.build_lib('ref', 'asan')
    d = tempfile.mkdtemp(prefix='protoc')
    try:
        mode = get('mode')
        if mode == 'values':
            n = int(get('schemacount'))
            ss = schemas(get('schemaseed'), n)
            with ThreadPoolExecutor(8) as pool:
                for w in pool.map(lambda k: try_valid(exe, ss[k], d, k, True), range(n)):
                    if w:
                        print(w)
                        return 1
            return subprocess.run([link(d, n), '--backend', 'ref', '--prop', get('prop') or 'C29', '--replay', path]).returncode
        if mode == 'schema':
            w = try_valid(exe, pickle.loads(bytes.fromhex(get('pickle'))), d, 0)
        elif mode == 'license':
            w = license_file(exe, schemas('1', 1)[0], d, random.Random(1))
        elif mode == 'noroom':
            first, rest = bytes.fromhex(get('hex')).decode().split('\n', 1)
            w = judge_room(exe, rest, d, first.split()[0], int(first.split()[1]))
        else:
            w = (judge_refused if mode == 'refused' else judge_mangled)(exe, bytes.fromhex(get('hex')), d)
        print(w or 'replay passes')
        return 1 if w else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
