"""Mechanical extraction of the verified text: clang's typed AST of /repo's current sources.

Every run dumps the AST of the translation units a property needs, with the
flags of /repo's own build, and indexes every function body / record / enum /
constant in it.  Nothing is rewritten; what is dropped is listed in DESIGN.md.
"""
import json, os, re, subprocess, hashlib, concurrent.futures, pickle, sys, time, glob

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++17', '-w', '-include', 'cstdint', '-I', '/opt/vp/deps/rapidjson-shim', '-I', REPO + '/source', '-DJSON_SCHEMA_PATH="/repo/schemas"']
CLANG = 'clang++-18'


class ExtractionError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/source/**/*', recursive=True)):
        if os.path.isfile(p) and p.endswith(('.h', '.cpp', '.hpp')) and '/test/' not in p:
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def _docs(s):
    d = json.JSONDecoder(); i = 0; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return
        if s[i] != '{':
            j = s.find('\n', i); i = n if j < 0 else j + 1
            continue
        o, i = d.raw_decode(s, i)
        yield o


def dump_tu(path, filt='haptics'):
    cmd = [CLANG] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s:\n%s' % (path, p.stderr.decode(errors='replace')[-2000:]))
    return p.stdout


def global_constant(path, name):
    """the definition of a constant at global scope (outside the extracted namespace) in that translation unit"""
    out = [o for o in _docs(dump_tu(path, name).decode('utf-8', errors='replace')) if o.get('kind') == 'VarDecl' and o.get('name') == name and o.get('inner')]
    out = [o for o in out if o.get('mangledName') in (name, '_ZL%d%s' % (len(name), name))]
    return out[0] if out else None


class Decl:
    __slots__ = ('node', 'tu', 'scope', 'name', 'qual', 'mangled', 'cls', 'body', 'params', 'loc')


KEEP_DROP = ('loc', 'range')


class Program:
    def __init__(self, tus):
        self.funcs = {}       # mangled -> Decl with body
        self.decls = {}       # (tu,id) -> Decl or raw node
        self.records = {}     # qual name -> dict(fields=[(name,type,init)], tu, bases, ctors=[...])
        self.rec_by_last = {}
        self.enums = {}       # qual -> {name: value}
        self.enum_by_last = {}
        self.enum_int = {}    # qual -> (bits, signed) of the fixed underlying type
        self.enumconst = {}   # (tu,id) -> (enumqual, value)
        self.globals = {}     # mangled -> (node, tu)
        self.idnode = {}      # (tu,id) -> (node, scope)
        self.by_qual = {}     # qual -> [Decl]
        self.prev = {}
        self.typedefs = {}
        self.files = tus
        for t, raw in enumerate(tus):
            self._index(t, raw[0], raw[1])

    def _index(self, tu, path, raw):
        s = raw.decode('utf-8', errors='replace')
        self._curfile = None
        for o in _docs(s):
            self._scan(o, tu, [])

    def _scan(self, n, tu, scope, cls=None):
        k = n.get('kind')
        if k is None:
            return
        nid = n.get('id')
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._scan(c, tu, scope + [n.get('name', '(anon)')])
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name')
            if nm is None:
                nm = '(lambda)'
            q = '::'.join(scope + [nm])
            self.idnode[(tu, nid)] = (n, scope)
            if n.get('completeDefinition'):
                self._record(n, tu, scope, q)
            for c in n.get('inner', []):
                if c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl',
                                     'FunctionTemplateDecl', 'CXXRecordDecl', 'EnumDecl', 'VarDecl', 'FieldDecl', 'FunctionDecl', 'TypedefDecl', 'TypeAliasDecl', 'FriendDecl'):
                    self._scan(c, tu, scope + [nm], cls=q)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    targs = [x for x in c.get('inner', []) if x.get('kind') == 'TemplateArgument']
                    if targs or not first:
                        self._scan(c, tu, scope, cls)
                    first = False
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            d = Decl()
            d.node = n; d.tu = tu; d.scope = scope; d.name = n.get('name')
            pid = n.get('parentDeclContextId')
            prev = n.get('previousDecl')
            if cls is None and k != 'FunctionDecl':
                # out-of-class definition: class found through previousDecl / parentDeclContextId
                if pid and (tu, pid) in self.idnode:
                    pn, ps = self.idnode[(tu, pid)]
                    scope = ps + [pn.get('name')]
                    cls = '::'.join(scope)
            d.cls = cls
            d.scope = scope
            d.qual = '::'.join(scope + [n.get('name') or '?'])
            d.mangled = n.get('mangledName') or d.qual + '#' + n.get('type', {}).get('qualType', '')
            d.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            d.body = next((c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
            d.loc = n.get('loc', {})
            old = self.decls.get((tu, nid))
            if old is not None and old.body is not None and d.body is None:
                return          # a second mention of an instantiated template
            self.decls[(tu, nid)] = d
            if d.body is not None:
                if d.mangled not in self.funcs:
                    self.funcs[d.mangled] = d
                    self.by_qual.setdefault(d.qual, []).append(d)
            if d.body is None and k != 'CXXConstructorDecl':
                pass
            for p in d.params:
                self.idnode[(tu, p['id'])] = (p, scope)
            if k == 'CXXConstructorDecl' and cls in self.records:
                if not any(x[0] == d.mangled for x in self.records[cls]['ctors']):
                    self.records[cls]['ctors'].append((d.mangled, d))
            return
        if k == 'EnumDecl':
            q = '::'.join(scope + [n.get('name', '(anon)')])
            cur = -1
            m = {}
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', []):
                        v = self._constval(e)
                        if v is not None:
                            break
                    cur = cur + 1 if v is None else v
                    m[c['name']] = cur
                    self.enumconst[(tu, c['id'])] = (q, cur)
            if m:
                self.enums[q] = m
                self.enum_by_last[q.split('::')[-1]] = q
                u = n.get('fixedUnderlyingType')
                if u:
                    from .ctypes_ import INTS
                    for nm in (u.get('desugaredQualType'), u.get('qualType')):
                        if nm in INTS:
                            self.enum_int[q] = INTS[nm]
                            break
            return
        if k == 'VarDecl':
            self.idnode[(tu, nid)] = (n, scope)
            mg = n.get('mangledName') or '::'.join(scope + [n.get('name', '?')])
            if n.get('inner'):
                self.globals['::'.join(scope + [n.get('name', '?')])] = (n, tu)
            return
        if k in ('FieldDecl',):
            self.idnode[(tu, nid)] = (n, scope)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[n.get('name')] = n['type'].get('desugaredQualType') or n['type']['qualType']
            return
        if k == 'LinkageSpecDecl':
            for c in n.get('inner', []):
                self._scan(c, tu, scope)

    def _constval(self, e):
        if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
            try:
                return int(e['value'])
            except ValueError:
                return None
        for c in e.get('inner', []):
            v = self._constval(c)
            if v is not None:
                return v
        return None

    def _record(self, n, tu, scope, q):
        fields = []
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                init = None
                for x in c.get('inner', []):
                    if not x.get('kind', '').endswith(('Attr', 'Comment')):
                        init = x
                fields.append((c.get('name'), tytext(c), init if c.get('hasInClassInitializer') else None))
                self.idnode[(tu, c['id'])] = (c, scope + [n.get('name', '')])
        bases = [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in n.get('bases', [])]
        if q not in self.records:
            self.records[q] = dict(fields=fields, tu=tu, bases=bases, ctors=[], node=n)
            self.rec_by_last.setdefault(q.split('::')[-1], []).append(q)


def tytext(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


def load(rel_paths, cache=None):
    """Dump and index the given sources (paths relative to /repo/source)."""
    cache = cache or os.environ.get('VERIF_AST_CACHE')
    paths = [REPO + '/source/' + p for p in rel_paths]
    missing = [p for p in paths if not os.path.exists(p)]
    if missing:
        raise ExtractionError('missing sources: %s' % missing)
    if cache:
        h = source_hash()
        os.makedirs(cache, exist_ok=True)
    def get(p):
        if cache:
            f = os.path.join(cache, h + '_' + p.replace('/', '_') + '.json')
            if os.path.exists(f):
                return open(f, 'rb').read()
        r = dump_tu(p)
        if cache:
            open(f, 'wb').write(r)
        return r
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        raws = list(ex.map(get, paths))
    return Program(list(zip(paths, raws)))
