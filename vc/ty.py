"""C++ types of the extraction -> WhyML types, and the theories these types need."""
import re

class Unsupported(Exception):
    pass

def strip(t):
    while t and t['k'] == 'ref':
        t = t['to']
    return t

def base(n):
    """last component of a qualified name, template arguments dropped"""
    n = re.sub(r'\(.*?\)(?=::)', '', n)
    n = n.replace('(anonymous namespace)::', '')
    depth = 0
    out = ''
    for c in n:
        if c == '<': depth += 1
        elif c == '>' and depth: depth -= 1
        elif depth == 0: out += c
    return out.split('::')[-1]

def targs(t):
    return [a for a in (t.get('a') or []) if not (a.get('k') == 'rec' and a['n'] in
            ('std::allocator', 'std::char_traits', 'std::less', 'std::default_delete'))]

INTS = {'int': 0, 'long': 0, 'long long': 0, 'short': 0, 'char': 0, 'signed char': 0,
        'unsigned int': 1, 'unsigned long': 1, 'unsigned long long': 1, 'unsigned short': 1,
        'unsigned char': 1}
STATELESS = ('std::less', 'std::less_equal', 'std::greater', 'std::greater_equal', 'std::negate',
             'std::plus', 'std::minus', 'std::equal_to')

def is_stateless(t):
    t = strip(t)
    return t['k'] == 'rec' and t['n'] in STATELESS

def tkey(t):
    """short C++ name, for the keys of functions"""
    t = strip(t)
    k = t['k']
    if k == 'b':
        return t['n']
    if k == 'enum':
        return base(t['n'])
    if k == 'ptr':
        return tkey(t['to']) + '*'
    if k == 'rec':
        n = t['n']
        if n == 'std::basic_string': return 'string'
        if n == 'std::basic_string_view': return 'string_view'
        a = targs(t)
        if n == 'std::variant' and len(a) == 8: return 'Expr'
        if n == 'std::variant' and len(a) == 2: return 'Num'
        if n == 'std::shared_ptr': return tkey(a[0]) + 'Ptr'
        b = base(n)
        if n in STATELESS: return b
        if a: return '%s<%s>' % (b, ','.join(tkey(x) for x in a if x.get('k') in ('b', 'rec', 'enum', 'ptr', 'ref')))
        return b
    if k == 'lambda':
        return 'lambda'
    return k

# Records of the library whose layout the theories in lib/ are written against.
KNOWN_RECS = {
    'Sample': ('sample', ['time', 'value', 'derivative'], ['real', 'real', 'real'], ''),
    'Const': ('const_t', ['value'], ['bool'], 'const_'),
    'Predicate': ('predicate_t', ['name', 'op', 'rhs'], ['string_t', 'comparisonop', 'real'], 'predicate_'),
    'Not': ('not_t', ['arg'], ['expr'], 'not_'),
    'And': ('and_t', ['args'], ['elist'], 'and_'),
    'Or': ('or_t', ['args'], ['elist'], 'or_'),
    'Interval': ('interval_t', ['low', 'high'], ['num', 'num'], 'interval_'),
    'Always': ('always_t', ['arg', 'interval'], ['expr', 'interval_t'], 'always_'),
    'Eventually': ('eventually_t', ['arg', 'interval'], ['expr', 'interval_t'], 'eventually_'),
    'Until': ('until_t', ['args', 'interval'], ['tup_expr_expr', 'interval_t'], 'until_'),
}
KNOWN_ENUMS = {'ComparisonOp': ('comparisonop', ['GT', 'GE', 'LT', 'LE'])}
KNOWN_VARIANTS = {
    ('const_t', 'predicate_t', 'not_t', 'and_t', 'or_t', 'always_t', 'eventually_t', 'until_t'):
        ('expr', ['EConst', 'EPred', 'ENot', 'EAnd', 'EOr', 'EAlways', 'EEventually', 'EUntil']),
    ('int', 'real'): ('num', ['NInt', 'NReal']),
    ('bool', 'int', 'real'): ('prim', ['PBool', 'PInt', 'PReal']),
}
PRED_TYPES = {'real', 'int', 'bool', 'unit', 'sample', 'sseq', 'string_t', 'expr', 'elist', 'num', 'prim',
              'ssseq', 'rseq', 'strseq', 'tmap', 'emap', 'tup_sseq_sseq', 'tup_real_real',
              'tup_expr_expr', 'opt_expr', 'opt_prim', 'opt_comparisonop', 'comparisonop'} | \
             {v[0] for v in KNOWN_RECS.values()}

SEQ_OF = {'sample': 'sseq', 'sseq': 'ssseq', 'real': 'rseq', 'string_t': 'strseq', 'expr': 'elist'}
ELT_OF = {v: k for k, v in SEQ_OF.items()}
MAP_OF = {'sseq': 'tmap', 'expr': 'emap'}
MAPELT = {v: k for k, v in MAP_OF.items()}

OPT_DECL = '''type $o = None_$o | Some_$o $e
val is_some_$o (o: $o) : bool ensures { result <-> o <> None_$o }
val get_$o (o: $o) : $e requires { o <> None_$o } ensures { o = Some_$o result }
val eq_$o (a b: $o) : bool ensures { result <-> a = b }'''

class Types:
    """WhyML types in use; generates the declarations of those not in lib/."""
    def __init__(self, recs):
        self.recs = recs              # qualified name -> rec
        self.decls = []               # WhyML text
        self.done = {}                # WhyML type -> info
        self.layout_errors = []
        self.variants = {}            # name -> [(ctor, ty)]
        self.records = {}             # name -> [(cfield, wfield, ty)]
        self.enums = {}
        self.opts = {}
        self.tups = {}
        for alts, (n, cs) in KNOWN_VARIANTS.items():
            self.variants[n] = list(zip(cs, alts))
        for cn, (n, fs, tys, pre) in KNOWN_RECS.items():
            self.records[n] = [(f, pre + f, ty) for f, ty in zip(fs, tys)]
        for cn, (n, cs) in KNOWN_ENUMS.items():
            self.enums[n] = cs
        for n in ('expr', 'prim', 'comparisonop'):
            self.opts['opt_' + n] = n
        self.tups['tup_sseq_sseq'] = ['sseq', 'sseq']
        self.tups['tup_real_real'] = ['real', 'real']
        self.tups['tup_expr_expr'] = ['expr', 'expr']
        self.checked = set()

    def known_layout(self, r):
        b = base(r['n'])
        if b in self.checked: return
        self.checked.add(b)
        n, fs, tys, pre = KNOWN_RECS[b]
        got = [(f['n'], self.vt(f['t'])) for f in r['fields']]
        if got != list(zip(fs, tys)) or r['bases'] or [s for s in r.get('statics', [])]:
            self.layout_errors.append('layout of %s: %s' % (b, got))

    def vt(self, t):
        t = strip(t)
        k = t['k']
        if k == 'b':
            n = t['n']
            if n in ('double', 'float', 'long double'): 
                if n != 'double': raise Unsupported('type ' + n)
                return 'real'
            if n == 'bool': return 'bool'
            if n == 'void': return 'unit'
            if n in INTS: return 'int'
            raise Unsupported('type ' + n)
        if k == 'enum':
            b = base(t['n'])
            if b in KNOWN_ENUMS: return KNOWN_ENUMS[b][0]
            return self.enum(t)
        if k == 'rec':
            n = t['n']; a = targs(t)
            if n in ('std::basic_string', 'std::basic_string_view'): return 'string_t'
            if n == 'std::vector':
                e = self.vt(a[0])
                if e not in SEQ_OF: raise Unsupported('vector of ' + e)
                return SEQ_OF[e]
            if n in ('std::shared_ptr', 'std::unique_ptr'): return self.vt(a[0])
            if n in ('std::__shared_ptr_access',): return self.vt(a[0])
            if n == 'std::map':
                e = self.vt(a[1])
                if self.vt(a[0]) != 'string_t' or e not in MAP_OF: raise Unsupported('map')
                return MAP_OF[e]
            if n == 'std::variant':
                key = tuple(self.vt_lazy(x) for x in a)
                if key in KNOWN_VARIANTS: return KNOWN_VARIANTS[key][0]
                raise Unsupported('variant of %s' % (key,))
            if n in ('std::pair', 'std::tuple'):
                return self.tup([self.vt(x) for x in a])
            if n == 'std::optional':
                return self.opt(self.vt(a[0]))
            if n in ('tao::pegtl::memory_input', 'tao::pegtl::string_input', 'tao::pegtl::file_input', 'tao::pegtl::mmap_input'): return 'input_t'
            if n in ('tao::pegtl::internal::action_input', 'std::filesystem::path'): return 'string_t'
            b = base(n)
            if n == 'signal_tl::signal::Signal':
                r = self.recs.get(n)
                if r and [(f['n'], self.vt(f['t'])) for f in r['fields']] != [('samples', 'sseq')]:
                    raise Unsupported('layout of Signal')
                return 'sseq'
            if b in KNOWN_RECS and n.startswith('signal_tl::'):
                r = self.recs.get(n)
                if r: self.known_layout(r)
                return KNOWN_RECS[b][0]
            if n in self.recs: return self.record(self.recs[n])
        raise Unsupported('type %s' % (t.get('n') or k))

    def vt_lazy(self, t):
        """as vt, without looking into records (they may be recursive)"""
        t = strip(t)
        if t['k'] == 'rec' and t['n'] == 'std::shared_ptr': t = targs(t)[0]
        if t['k'] == 'rec' and t['n'].startswith('signal_tl::') and base(t['n']) in KNOWN_RECS:
            return KNOWN_RECS[base(t['n'])][0]
        return self.vt(t)

    def enum(self, t):
        b = base(t['n']).lower()
        n = 'enum_' + b
        if n not in self.enums:
            cs = t.get('vals')
            if not cs: raise Unsupported('enum ' + t['n'])
            self.enums[n] = cs
            self.decls.append('type %s = %s' % (n, ' | '.join('%s_%s' % (n.capitalize(), c) for c in cs)))
            self.decls.append('val eq_%s (a b: %s) : bool ensures { result <-> a = b }' % (n, n))
        return n

    def enum_ctor(self, n, c):
        for cn, (m, cs) in KNOWN_ENUMS.items():
            if m == n: return c
        return '%s_%s' % (n.capitalize(), c)

    def tup(self, tys):
        n = 'tup_' + '_'.join(tys)
        if n not in self.tups:
            self.tups[n] = tys
            self.decls.append('type %s = { %s }' % (n, '; '.join('%s_%d: %s' % (n, i, ty) for i, ty in enumerate(tys))))
        return n

    def opt(self, ty):
        n = 'opt_' + ty
        if n not in self.opts:
            self.opts[n] = ty
            self.decls.append(OPT_DECL.replace('$o', n).replace('$e', ty))
        return n

    def record(self, r):
        n = base(r['n']).lower() + '_t'
        if n in self.records:
            return n
        if r['bases']: raise Unsupported('record with bases ' + r['n'])
        fs = [(f['n'], base(r['n']).lower() + '_' + f['n'], self.vt(f['t'])) for f in r['fields']]
        self.records[n] = fs
        if not fs:
            self.decls.append('type %s = Mk_%s' % (n, n))
        else:
            self.decls.append('type %s = { %s }' % (n, '; '.join('%s: %s' % (w, ty) for _, w, ty in fs)))
        return n

def seqfn(ty, op):
    """names of the operations of a sequence type"""
    if ty == 'sseq' and op in ('len', 'nth'): return op
    return ty + '_' + op
