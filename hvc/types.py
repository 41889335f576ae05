"""C++ type strings (as printed by clang) -> internal types."""
import re

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
    'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
    'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'int8_t': (8, True), 'uint8_t': (8, False), 'int16_t': (16, True), 'uint16_t': (16, False),
    'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True), 'uint64_t': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'ptrdiff_t': (64, True),
    'std::ptrdiff_t': (64, True), 'PLI_INT32': (32, True), 'PLI_UINT32': (32, False),
    'hgdb::ExpressionType': (64, True), 'ExpressionType': (64, True),
    'std::vector::size_type': (64, False), 'size_type': (64, False), 'SizeType': (32, False),
}

JSON = ('opaque', 'json')      # a rapidjson value; see contracts/json.py


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class TypeCtx:
    def __init__(self, tu, opaque=()):
        self.tu = tu
        self.cache = {}
        self.opaque = set(opaque)
        self.ext = {}

    def ty(self, t):
        """t: clang 'type' dict or string -> (Ty, isref)."""
        if isinstance(t, dict):
            s = t.get('desugaredQualType') or t.get('qualType')
        else:
            s = t
        if s not in self.cache:
            self.cache[s] = self._parse(s)
        return self.cache[s]

    def _parse(self, s):
        s = s.strip()
        ref = False
        while s.endswith('&'):
            s = s[:-1].strip()
            ref = True
        return (self._p(s), ref)

    def _p(self, s):
        s = s.strip()
        while True:
            o = s
            for q in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename '):
                if s.startswith(q):
                    s = s[len(q):].strip()
            for q in (' const', ' volatile', '&'):
                if s.endswith(q):
                    s = s[:-len(q)].strip()
            if s.endswith('*const'):
                s = s[:-5].strip()
            if s == o:
                break
        if s.endswith('*'):
            return ('ptr', self._p(s[:-1]))
        if s in ('bool', '_Bool'):
            return ('bool',)
        if s in INTS:
            return ('int',) + INTS[s]
        if s == 'void':
            return ('void',)
        if s in ('double', 'float', 'long double'):
            return ('opaque', 'double')
        if s in ('nullptr_t', 'std::nullptr_t'):
            return ('ptr', ('void',))
        m = re.match(r'^(char|const char)\[(\d+)\]$', s)
        if m or s == 'char[]':
            return ('str',)
        m = re.match(r'^(.*?)<(.*)>$', s, re.S)
        if m:
            base, args = m.group(1).strip(), split_args(m.group(2))
            b = base.split('::')[-1]
            std = base.startswith('std::') or '::' not in base
            if b == '__cxx11':
                b = base.split('::')[-1]
            if b in ('basic_string', 'basic_string_view'):
                return ('str',)
            if b in ('vector', 'deque', 'list', 'initializer_list', 'span'):
                return ('vec', self._p(args[0]))
            if b in ('queue', 'stack'):
                return ('vec', self._p(args[0]))
            if b in ('unordered_map', 'map', 'multimap'):
                return ('map', self._p(args[0]), self._p(args[1]))
            if b in ('unordered_set', 'set'):
                return ('set', self._p(args[0]))
            if b == 'optional':
                return ('opt', self._p(args[0]))
            if b in ('unique_ptr', 'shared_ptr'):
                return ('ptr', self._p(args[0]))
            if b == 'pair':
                return ('tup', self._p(args[0]), self._p(args[1]))
            if b == 'tuple':
                return ('tup',) + tuple(self._p(a) for a in args)
            if b in ('reference_wrapper', 'atomic', '__not_self'):
                return self._p(args[0])
            if b in ('function',):
                return ('opaque', 'function')
            if b in ('lock_guard', 'unique_lock', 'scoped_lock'):
                return ('opaque', 'lock')
            if b == '__normal_iterator':
                return ('iter',)
            if b in ('GenericDocument', 'GenericValue'):
                return JSON
            if b == 'GenericMember':
                return ('tup', JSON, JSON)
            if b == 'GenericObject':
                return ('vec', ('tup', JSON, JSON))
            if b == 'GenericArray':
                return ('vec', JSON)
        if s in ('std::string', 'string', 'std::string_view', 'string_view', 'std::__cxx11::string'):
            return ('str',)
        if s in ('rapidjson::Value', 'rapidjson::Document'):
            return JSON
        if s.endswith('nullopt_t'):
            return ('nullopt',)
        if s in ('vpiHandle', 'hgdb::vpiHandle'):
            return ('ptr', ('int', 32, False))
        q = self.lookup(s)
        if q:
            return q
        return ('opaque', s)

    def lookup(self, s):
        tu = self.tu
        s0 = s
        if s.startswith('::'):
            s = s[2:]
        for table, mk in ((tu.enumty, 'enum'), (tu.records, 'rec')):
            if s in table:
                return (mk, s) if s not in self.opaque else ('opaque', s)
            c = [q for q in table if q.endswith('::' + s)]
            if c:
                c.sort(key=len)
                return (mk, c[0]) if c[0] not in self.opaque else ('opaque', c[0])
        for q in tu.typedefs:
            if q == s or q.endswith('::' + s):
                t = tu.typedefs[q]
                ss = t.get('desugaredQualType') or t.get('qualType')
                if ss != s0 and ss != s:
                    return self._p(ss)
        if '::' in s and '<' not in s:          # a name that the class has from one of its bases
            c, n = s.rsplit('::', 1)
            r = self.lookup(c)
            if r and r[0] == 'rec':
                for b in tu.supers(r[1]):
                    q = b + '::' + n
                    if q in tu.typedefs or q in tu.records or q in tu.enumty:
                        return self.lookup(q)
        return None


def key(t):
    if t[0] == 'int':
        return ('i' if t[2] else 'u') + str(t[1])
    if t[0] in ('rec', 'enum', 'opaque'):
        return re.sub(r'[^A-Za-z0-9_]', '_', t[1])
    return t[0] + ''.join('_' + key(a) if isinstance(a, tuple) else '_' + str(a) for a in t[1:])
