"""C++ type strings as printed by clang -> small type objects (64-bit Linux ABI)."""
import re, functools

INTS = {'bool': None, 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'uint8_t': (8, False), 'int8_t': (8, True), 'uint16_t': (16, False), 'int16_t': (16, True), 'uint32_t': (32, False),
        'int32_t': (32, True), 'uint64_t': (64, False), 'int64_t': (64, True), 'size_t': (64, False), 'ssize_t': (64, True),
        'std::size_t': (64, False), 'std::uint8_t': (8, False), 'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True),
        'std::byte': (8, False), 'socklen_t': (32, False), 'wchar_t': (32, True), 'char8_t': (8, False), 'mode_t': (32, False),
        'std::streamsize': (64, True), 'time_t': (64, True), '__int128': (128, True), 'unsigned __int128': (128, False)}


class T:
    __slots__ = ('kind', 'name', 'args', 'width', 'signed', 'to', 'const', 'raw', 'n')

    def __init__(self, kind, name='', args=(), width=None, signed=None, to=None, const=False, raw='', n=None):
        self.kind, self.name, self.args, self.width, self.signed, self.to, self.const, self.raw, self.n = \
            kind, name, tuple(args), width, signed, to, const, raw, n

    @property
    def simple(self):
        return self.name.split('::')[-1]

    def strip(self):
        t = self
        while t.kind == 'ref':
            t = t.to
        return t

    def __repr__(self):
        if self.kind == 'int':
            return ('i' if self.signed else 'u') + str(self.width)
        if self.kind in ('ref', 'ptr'):
            return repr(self.to) + ('&' if self.kind == 'ref' else '*')
        return self.name + ('<%s>' % ','.join(map(repr, self.args)) if self.args else '')


def split_args(s):
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if c == '>' and i > 0 and s[i - 1] == '-':
                pass
            else:
                depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=None)
def parse_type(s):
    raw = s
    s = s.strip()
    if s.startswith('(lambda at') and s.endswith(')'):
        return T('lambda', s, raw=raw)
    if re.match(r'^(const )?(enum )?\((unnamed|anonymous) enum at [^()]*\)$', s):
        return parse_type('unsigned int')
    # trailing qualifiers
    m = re.match(r'^(.*?)\s*(&&|&)$', s)
    if m:
        return T('ref', to=parse_type(m.group(1)), raw=raw)
    m = re.match(r'^(.*\*)\s*(const|volatile|restrict|__restrict)$', s)
    if m:
        return parse_type(m.group(1))
    if s.endswith('*'):
        return T('ptr', to=parse_type(s[:-1]), raw=raw)
    m = re.match(r'^(.*\S)\s*\[(\d*)\]$', s)
    if m and not m.group(1).startswith('(lambda') and m.group(1).count('<') == m.group(1).count('>'):
        return T('array', 'carray', args=(parse_type(m.group(1)),), n=int(m.group(2)) if m.group(2) else None, raw=raw)
    if s.endswith(')') or s.endswith(') const') or s.endswith('noexcept') or ') const' in s and '<' not in s.split(')')[-1]:
        if '(' in s and not s.startswith('(lambda'):
            # function type (possibly member)
            depth = 0
            for i, c in enumerate(s):
                if c == '<':
                    depth += 1
                elif c == '>':
                    depth -= 1
                elif c == '(' and depth == 0:
                    return T('func', s, raw=raw, to=parse_type(s[:i]) if s[:i].strip() else None)
    const = False
    changed = True
    while changed:
        changed = False
        for q in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if s.startswith(q):
                s = s[len(q):].strip()
                const = const or q == 'const '
                changed = True
        for q in (' const', ' volatile'):
            if s.endswith(q):
                s = s[:-len(q)].strip()
                const = True
                changed = True
    if s.endswith('*') or s.endswith('&'):
        return parse_type(s)
    if s.startswith('(lambda at'):
        return T('lambda', s, raw=raw)
    if s == 'bool' or s == '_Bool':
        return T('bool', 'bool', width=1, raw=raw, const=const)
    if s in INTS:
        w, sg = INTS[s]
        return T('int', s, width=w, signed=sg, raw=raw, const=const)
    if s == 'void':
        return T('void', 'void', raw=raw)
    if s in ('float', 'double', 'long double'):
        return T('float', s, raw=raw)
    if s in ('std::nullptr_t', 'nullptr_t'):
        return T('ptr', to=T('void', 'void'), raw=raw)
    i = s.find('<')
    if i > 0 and s.endswith('>'):
        name = s[:i].strip()
        args = split_args(s[i + 1:-1])
        targs = []
        for a in args:
            if re.match(r'^-?\d+[uUlL]*$', a):
                targs.append(T('num', a, n=int(re.match(r'^-?\d+', a).group(0))))
            else:
                targs.append(parse_type(a))
        name = re.sub(r'\b__cxx11::', '', name)
        name = re.sub(r'\b_V2::', '', name)
        if name == 'std::basic_string':
            return T('class', 'std::string', raw=raw, const=const)
        if name == 'std::basic_string_view':
            return T('class', 'std::string_view', raw=raw, const=const)
        return T('class', name, targs, raw=raw, const=const)
    if i > 0 and '>::' in s:
        # nested type of a template: keep whole string
        return T('class', s, raw=raw, const=const)
    return T('class', s, raw=raw, const=const)


def node_type_str(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''
