"""C++ type texts -> small type objects (the verifier's value sorts)."""
import re


class T:
    __slots__ = ('k', 'name', 'bits', 'signed', 'args')

    def __init__(self, k, name='', bits=0, signed=False, args=()):
        self.k = k; self.name = name; self.bits = bits; self.signed = signed; self.args = args

    def __repr__(self):
        return self.k + (':' + self.name if self.name else '') + (repr(list(self.args)) if self.args else '')

    def key(self):
        return repr(self)


INTS = {
    'int': (32, True), 'unsigned int': (32, False), 'short': (16, True), 'unsigned short': (16, False),
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'long': (64, True),
    'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'uint8_t': (8, False), 'int8_t': (8, True), 'uint16_t': (16, False), 'int16_t': (16, True),
    'uint32_t': (32, False), 'int32_t': (32, True), 'uint64_t': (64, False), 'int64_t': (64, True),
    'size_t': (64, False), 'size_type': (64, False), 'streamsize': (64, True), 'streamoff': (64, True), 'ptrdiff_t': (64, True),
    'difference_type': (64, True), 'unsigned': (32, False), 'uint': (32, False), 'time_t': (64, True), 'SizeType': (32, False),
    'long int': (64, True), 'short int': (16, True), 'long unsigned int': (64, False), 'wchar_t': (32, True), 'char16_t': (16, False), 'char32_t': (32, False),
}
_cache = {}


def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}

    def of(self, n):
        t = n.get('type', {})
        return self.parse(t.get('desugaredQualType') or t.get('qualType') or 'void', t.get('qualType'))

    def parse(self, s, alt=None):
        key = (s, alt)
        if key in self.cache:
            return self.cache[key]
        r = self._parse(s)
        if r.k == 'other' and alt and alt != s:
            r2 = self._parse(alt)
            if r2.k != 'other':
                r = r2
        self.cache[key] = r
        return r

    def _parse(self, s):
        s = s.strip()
        # function types
        changed = True
        while changed:
            changed = False
            for pre in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename ', 'static ', 'constexpr '):
                if s.startswith(pre):
                    s = s[len(pre):].strip(); changed = True
            for suf in (' const', '*const', ' volatile'):
                if s.endswith(suf):
                    s = s[:-len(suf)].strip() + ('*' if suf == '*const' else ''); changed = True
        if s.endswith('&&'):
            return T('ref', args=(self.parse(s[:-2]),))
        if s.endswith('&'):
            return T('ref', args=(self.parse(s[:-1]),))
        if s.endswith('*'):
            return T('ptr', args=(self.parse(s[:-1]),))
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m and '<' not in m.group(2):
            return T('array', args=(self.parse(m.group(1)), int(m.group(2) or 0)))
        if s in ('bool', '_Bool', 'std::_Bit_reference', '_Bit_reference', 'reference', 'std::vector<bool>::reference') or re.match(r'^std::bitset<\d+>::(const_)?reference$', s):
            return T('bool', bits=1)
        if s == 'void':
            return T('void')
        if s in ('float', 'double', 'long double'):
            return T('float', s)
        last = s
        if '<' not in s:
            last = s.split('::')[-1]
            if s in INTS or last in INTS:
                b, sg = INTS.get(s) or INTS[last]
                return T('int', bits=b, signed=sg)
            if last in ('string', 'String'):
                return T('string')
            if last in ('istream', 'ifstream', 'stringstream', 'istringstream'):
                return T('istream', last)
            if last in ('ostream', 'ofstream', 'ostringstream'):
                return T('ostream', last)
            if last == 'nullopt_t':
                return T('nullopt')
            # enums / records
            q = self._res(s, self.p.enums, self.p.enum_by_last)
            if q:
                b, sg = self.p.enum_int.get(q, (32, True))
                return T('enum', q, bits=b, signed=sg)
            if last in self.p.rec_by_last:
                c = self.p.rec_by_last[last]
                best = [x for x in c if x == s] or [x for x in c if x.endswith(s)] or c
                return T('record', best[0])
            if last in self.p.typedefs and self.p.typedefs[last] != s:
                return self.parse(self.p.typedefs[last])
            return T('other', s)
        m = re.match(r'^([^<]*)<(.*)>(.*)$', s, re.S)
        if not m:
            return T('other', s)
        base, args, tail = m.group(1), split_args(m.group(2)), m.group(3)
        # balanced check for things like vector<T>::value_type or nested
        if tail:
            tl = tail.split('::')[-1]
            if tl in INTS:
                b, sg = INTS[tl]
                return T('int', bits=b, signed=sg)
            if tl in ('iterator', 'const_iterator', 'reverse_iterator', 'const_reverse_iterator'):
                return T('iter', tl, args=(self.parse(m.group(1) + '<' + m.group(2) + '>'),))
            if tl in ('value_type', 'reference', 'const_reference'):
                b = self.parse(m.group(1) + '<' + m.group(2) + '>')
                if b.k in ('vector', 'optional'):
                    return b.args[0]
                if b.k == 'bitset':
                    return T('bool', bits=1)
            return T('other', s)
        b = base.split('::')[-1]
        if b == 'fpos':
            return T('int', bits=64, signed=True)
        if b in ('basic_string', '__cxx11::basic_string'):
            return T('string')
        if b in ('basic_istream', 'basic_ifstream', 'basic_stringstream', 'basic_istringstream'):
            return T('istream', b[6:])
        if b in ('basic_ostream', 'basic_ofstream', 'basic_ostringstream'):
            return T('ostream', b[6:])
        if b in ('vector', 'deque', 'list', 'initializer_list'):
            return T('vector', 'list' if b == 'list' else '', args=(self.parse(args[0]),))
        if b == 'array':
            return T('array', args=(self.parse(args[0]), int(re.sub(r'\D', '', args[1]) or 0)))
        if b == 'optional':
            return T('optional', args=(self.parse(args[0]),))
        if b == 'pair':
            return T('tuple', 'pair', args=tuple(self.parse(a) for a in args))
        if b == 'tuple':
            return T('tuple', args=tuple(self.parse(a) for a in args))
        if b in ('map', 'unordered_map'):
            return T('map', args=(self.parse(args[0]), self.parse(args[1])))
        if b == 'bitset':
            return T('bitset', bits=int(re.sub(r'\D', '', args[0])))
        if b in ('__normal_iterator', 'reverse_iterator', '_Bit_iterator', 'move_iterator'):
            return T('iter', b, args=tuple(self.parse(a) for a in args))
        if b in ('GenericValue', 'GenericDocument', 'GenericObject', 'GenericArray', 'GenericMember'):
            return T('json', b)
        if b in ('unique_ptr', 'shared_ptr'):
            return T('ptr', b, args=(self.parse(args[0]),))
        return T('other', s)

    def _res(self, s, table, by_last):
        if s in table:
            return s
        last = s.split('::')[-1]
        c = [q for q in table if q.split('::')[-1] == last]
        if not c:
            return None
        e = [q for q in c if q.endswith('::' + s)]
        return (e or c)[0]


def strip_ref(t):
    return t.args[0] if t.k == 'ref' else t
