"""The grammar of specifications: every rule (a C++ type) becomes a WhyML function on the input position, the
definitions read so far and the state of the current term, with the actions of the rule (C++ functions) inlined
where the PEGTL runs them.  What the combinators of the PEGTL mean is stated here; which rules there are, what they
consist of and which actions they have is read from the source."""
from trans import *
from trans import Tr as Tr_

G = 'signal_tl::grammar::'
ACT = 'signal_tl::parser::actions::action'
INPUT = {'k': 'ref', 'to': {'k': 'rec', 'n': 'tao::pegtl::memory_input'}}
GLOBAL = {'k': 'ref', 'to': {'k': 'rec', 'n': 'signal_tl::parser::actions::GlobalParserState'}}
STATE = {'k': 'ref', 'to': {'k': 'rec', 'n': 'signal_tl::parser::actions::ParserState'}}
BOOL = {'k': 'b', 'n': 'bool'}
CLASSES = {'space': [(9, 13), (32, 32)], 'digit': [(48, 57)], 'identifier_first': [(97, 122), (65, 90), (95, 95)],
           'identifier_other': [(97, 122), (65, 90), (48, 57), (95, 95)], 'alpha': [(97, 122), (65, 90)],
           'alnum': [(97, 122), (65, 90), (48, 57)], 'lower': [(97, 122)], 'upper': [(65, 90)],
           'xdigit': [(48, 57), (97, 102), (65, 70)], 'blank': [(9, 9), (32, 32)]}

def canon(t):
    a = t.get('a')
    return str(t.get('v', t.get('n'))) + ('<%s>' % ','.join(canon(x) for x in a) if a else '')

class Grammar:
    """rules and actions of the parser"""
    def __init__(self, tu):
        self.recs, self.acts = {}, {}
        misc = {m['n']: re.sub(r'\s+', ' ', m['text']).strip().rstrip(';') for m in tu.get('misc', [])}
        want = {'signal_tl::parser::error::raise_on_failure': 'static constexpr bool raise_on_failure = false',
                'signal_tl::parser::control': 'using control = peg::must_if<error, peg::normal>::control<Rule>'}
        self.bad = None
        for n, x in want.items():
            got = misc.get(n, '').replace('tao::pegtl::', 'peg::')
            if got != x: self.bad = '%s is not `%s\' but `%s\'' % (n, x, got)
        for r in tu['recs']:
            if r['n'].startswith(G): self.recs[canon(r)] = r
            elif r['n'] == ACT and r.get('a'):
                b = [base(x['n']) for x in r['bases']]
                self.acts.setdefault(canon(r['a'][0]), {})['bases'] = b
        for f in tu['fns']:
            c = f.get('cls')
            if c and c.get('n') == ACT and f.get('body') is not None:
                self.acts.setdefault(canon(c['a'][0]), {}).setdefault(base(f['n']), []).append(f)
        self.quiet = {}
    def action(self, t):
        a = self.acts.get(canon(t))
        if a is None: return None
        b = a.get('bases', [])
        if [x for x in b if x not in ('nothing', 'require_apply', 'require_apply0')]: raise Unsupported('action of %s' % canon(t))
        fs = {k: v for k, v in a.items() if k != 'bases' and k != 'action' and not k.startswith('~') and not k.startswith('operator')}
        if set(fs) - {'apply', 'apply0', 'match'}: raise Unsupported('action of %s: %s' % (canon(t), sorted(fs)))
        if not fs: return None
        if 'nothing' in b: raise Unsupported('action of %s' % canon(t))
        return fs
    def rec(self, t): return self.recs.get(canon(t))
    def body(self, t):
        r = self.rec(t)
        if r is None: raise Unsupported('rule %s' % canon(t))
        if len(r['bases']) != 1 or r['fields']: raise Unsupported('rule %s' % canon(t))
        return r['bases'][0]
    def silent(self, t, seen=()):
        """no action can run in the rule"""
        c = canon(t)
        if c in seen: return True
        if t.get('k') != 'rec': return True
        if c not in self.quiet or seen:
            b = base(t['n'])
            if self.action(t): r = False
            elif t['n'].startswith(G): r = self.silent(self.body(t), seen + (c,))
            elif b in ('disable', 'at', 'not_at'): r = True
            else: r = all(self.silent(x, seen + (c,)) for x in t.get('a', []))
            if seen: return r
            self.quiet[c] = r
        return self.quiet[c]

def install(prog):
    """adds the rules that have contracts to the functions of the program"""
    prog.grammar = None
    tu = prog.tus.get('parser')
    if tu is None: return
    g = prog.grammar = Grammar(tu)
    for c, r in g.recs.items():
        k = 'rule ' + base(c) if '<' not in c else None
        if k is None or k not in prog.contracts: continue
        t = {'k': 'rec', 'n': r['n'], 'a': r.get('a') or []}
        try: ps = [INPUT] if g.silent(t) else [INPUT, GLOBAL, STATE]
        except Unsupported: ps = [INPUT, GLOBAL, STATE]
        prog.bykey[k] = ('parser', {'n': r['n'], 'rule': t, 'params': [{'t': x, 'n': 'p%d' % i, 'id': -1 - i} for i, x in enumerate(ps)], 'ret': BOOL,
                                    'p': ps, 'body': None, 'l': r.get('loc', '')})

class RuleTr(Tr_):
    def function(self):
        g = self.grammar = self.prog.grammar
        if g.bad: raise Unsupported(g.bad)
        t = self.fn['rule']
        self.env, self.this, self.frames, self.conts, self.contused = {}, None, [], [], []
        self.refs = []
        for i, p in enumerate(self.fn['params']):
            r = Ref('p%d' % i, self.vt(p['t'])); self.assigned.append(r); self.refs.append(r)
        ps = ['(%s: ref %s)' % (r.name, r.ty) for r in self.refs]
        self.ctr_args = [r.name for r in self.refs]
        self.rno = 0
        v = self.rule(t, True, top=True)
        return ps, 'bool', '\n'.join(self.buf + [v])

    def rcall(self, k):
        tu, f = self.prog.bykey[k]
        if len(f['params']) > len(self.refs): raise Unsupported('%s has actions' % k)
        c = self.prog.contracts[k]
        return self.callcontract(k, c, f, None, [L(r) for r in self.refs[:len(f['params'])]]).text

    def rule(self, t, act, top=False):
        """text of the result of the rule at the current position"""
        if t.get('k') != 'rec': raise Unsupported('rule %s' % canon(t))
        n = t['n']; c = canon(t)
        a = self.grammar.action(t) if act else None
        if a and 'match' in a and not top:
            fs = a['match']
            ks = sorted(fkey(f) for f in fs)
            k = ks[-1]
            if k not in self.prog.contracts: raise Unsupported('action %s without contract' % k)
            return self.callcontract(k, self.prog.contracts[k], self.prog.bykey[k][1], None, [L(r) for r in self.refs]).text
        k = 'rule ' + base(n)
        if not top and n.startswith(G) and not t.get('a') and k in self.prog.contracts:
            if not act and not self.grammar.silent(t): raise Unsupported('actions of %s are off' % k)
            return self.rcall(k)
        if c in self.stack: raise Unsupported('recursive rule without contract: ' + c)
        self.stack.append(c)
        oloc = self.loc
        r = self.grammar.rec(t)
        if r is not None: self.loc = r.get('loc', self.loc)
        try:
            start = self.let('!p0', 'input_t', 's') if a and 'apply' in a else None
            v = self.rule(self.grammar.body(t), act) if n.startswith(G) else self.core(t, act)
            if a and ('apply' in a or 'apply0' in a):
                f = (a.get('apply') or a.get('apply0'))[0]
                if len(a.get('apply') or a.get('apply0')) > 1: raise Unsupported('several actions of ' + c)
                def run():
                    args = []
                    if 'apply' in a: args.append(self.let('p_between %s !p0' % start.text, 'string_t'))
                    if self.vt(f['ret']) != 'unit': raise Unsupported('action with a result')
                    self.inline('parser', f, None, args + [L(r_) for r_ in self.refs[1:]], fkey(f))
                    return A('true', 'bool')
                v = self.either(v, run, lambda: A('false', 'bool'))
            return v
        finally:
            self.stack.pop()
            self.loc = oloc

    def either(self, c, f, g):
        if c == 'true': return f().text
        r = self.join([f, g], lambda bs: 'if %s then %s else %s' % (c, bs[0], bs[1]))
        if r == 'exit': raise Unsupported('rule that never ends')
        return r.text
    def chars(self, test):
        """one character with the property"""
        c = self.let('p_ch !p0 0', 'int', 'c')
        b = self.let(test(c.text), 'bool', 'b')
        self.emit('if %s then p0 := p_adv !p0 1;' % b.text)
        return b.text
    def all(self, ts, act):
        """the rules one after the other; without resetting the position"""
        if not ts: return 'true'
        v = self.rule(ts[0], act)
        if len(ts) == 1: return v
        return self.either(v, lambda: A(self.all(ts[1:], act), 'bool'), lambda: A('false', 'bool'))
    def seq(self, ts, act):
        if len(ts) == 1: return self.rule(ts[0], act)
        s = self.let('!p0', 'input_t', 's')
        v = self.all(ts, act)
        if v != 'true': self.emit('if not %s then p0 := %s;' % (v, s.text))
        return v
    def loop_(self, cond, body, inv=()):
        """while (cond) body; cond and body emit their text"""
        no = self.rno; self.rno += 1
        L_ = self.ctr.loops[no] if no < len(self.ctr.loops) else None
        cl, c = self.sub(cond)
        bl, _ = self.sub(body)
        self.buf.append('while begin\n%s\n%s end do' % ('\n'.join(cl), c))
        if L_ is not None:
            for i, (tags, x) in enumerate(L_.inv):
                if self.tagok(tags): self.buf.append('  invariant { %s } (*@ %s invariant %d *)' % (x, self.loc, i + 1))
        for x in inv: self.buf.append('  invariant { %s } (*@ %s *)' % (x, self.loc))
        self.buf.append('  variant { %s } (*@ %s the loop ends *)' % ((L_ and L_.variant) or 'slen (!p0).itext - (!p0).ipos', self.loc))
        self.buf += bl
        self.buf.append('() done;')
    def star_(self, ts, act):
        if len(ts) == 1:
            b = base(ts[0]['n'])
            if ts[0]['n'].startswith('tao::pegtl::') and not (act and self.grammar.action(ts[0])):
                if b == 'digit': self.emit('p0 := p_digits !p0;'); return
                if b == 'identifier_other': self.emit('p0 := p_word !p0;'); return
        self.loop_(lambda: self.seq(ts, act), lambda: None)

    def core(self, t, act):
        n, a = t['n'], t.get('a') or []
        if not n.startswith('tao::pegtl::') or 'internal' in n: raise Unsupported('rule ' + n)
        b = base(n)
        if b in ('seq', 'sor', 'opt', 'star', 'plus', 'until', 'must', 'if_must', 'at', 'not_at', 'disable', 'enable') and not all(x.get('k') == 'rec' for x in a):
            raise Unsupported('rule ' + canon(t))
        if b in ('one', 'not_one'):
            cs = [int(x['v']) for x in a]
            x = lambda c: '(%s)' % ' || '.join('p_ieq %s %s' % (c, '(%d)' % k if k < 0 else k) for k in cs)
            if b == 'one': return self.chars(x)
            return self.chars(lambda c: 'not (p_ieq %s (-1)) && not %s' % (c, x(c)))
        if b in ('range', 'ranges'):
            cs = [int(x['v']) for x in a]
            ps = [(cs[i], cs[i + 1]) if i + 1 < len(cs) else (cs[i], cs[i]) for i in range(0, len(cs), 2)]
            return self.chars(lambda c: ' || '.join('(p_ile %d %s && p_ile %s %d)' % (x, c, c, y) for x, y in ps))
        if b in CLASSES and not a:
            return self.chars(lambda c: ' || '.join('(p_ile %d %s && p_ile %s %d)' % (x, c, c, y) for x, y in CLASSES[b]))
        if b == 'any' and not a: return self.chars(lambda c: 'not (p_ieq %s (-1))' % c)
        if b == 'string':
            cs = [int(x['v']) for x in a]
            v = self.let(' && '.join('p_ieq (p_ch !p0 %d) %d' % (i, k) for i, k in enumerate(cs)) or 'true', 'bool', 'b')
            self.emit('if %s then p0 := p_adv !p0 %d;' % (v.text, len(cs)))
            return v.text
        if b == 'identifier' and not a:
            v = self.let('p_isfirst (p_ch !p0 0)', 'bool', 'b')
            self.emit('if %s then p0 := p_identifier !p0;' % v.text)
            return v.text
        if b == 'eof': return self.let('p_ieq (p_rest !p0) 0', 'bool', 'b').text
        if b in ('eolf', 'eol'):
            k = self.let('p_eol !p0', 'int', 'k')
            self.emit('p0 := p_adv !p0 %s;' % k.text)
            if b == 'eol': return self.let('p_ilt 0 %s' % k.text, 'bool', 'b').text
            return self.let('p_ilt 0 %s || p_ieq (p_rest !p0) 0' % k.text, 'bool', 'b').text
        if b == 'success': return 'true'
        if b == 'failure': return self.let('false', 'bool', 'b').text
        if b == 'seq': return self.seq(a, act)
        if b == 'sor':
            def alt(ts):
                v = self.rule(ts[0], act)
                if len(ts) == 1: return v
                return self.either(v, lambda: A('true', 'bool'), lambda: A(alt(ts[1:]), 'bool'))
            return alt(a)
        if b == 'opt': self.seq(a, act); return 'true'
        if b == 'star': self.star_(a, act); return 'true'
        if b == 'plus':
            v = self.seq(a, act)
            lines, _ = self.sub(lambda: self.star_(a, act))
            self.buf.append('if %s then begin\n%s\n() end;' % (v, '\n'.join(lines)))
            return v
        if b == 'until':
            s = self.let('!p0', 'input_t', 's')
            ok = self.fresh('ok')
            self.emit('let %s = ref true in' % ok)
            def cond():
                v = self.rule(a[0], act)
                return 'not %s' % v
            def body():
                if len(a) > 1:
                    v = self.seq(a[1:], act)
                    self.emit('if not %s then begin %s := false; break end;' % (v, ok))
                else:
                    self.emit('if p_ieq (p_rest !p0) 0 then begin %s := false; break end;' % ok)
                    self.emit('p0 := p_adv !p0 1;')
            self.loop_(cond, body, ['!%s = true' % ok])
            self.emit('if not !%s then p0 := %s;' % (ok, s.text))
            return self.let('!' + ok, 'bool', 'b').text
        if b == 'must':
            for x in a: self.must(x, act)
            return 'true'
        if b == 'if_must':
            v = self.rule(a[0], act)
            lines, _ = self.sub(lambda: [self.must(x, act) for x in a[1:]])
            self.buf.append('if %s then begin\n%s\n() end;' % (v, '\n'.join(lines)))
            return v
        if b in ('at', 'not_at'):
            s = self.let('!p0', 'input_t', 's')
            v = self.seq(a, False)
            self.emit('p0 := %s;' % s.text)
            return v if b == 'at' else self.let('not %s' % v, 'bool', 'b').text
        if b == 'disable': return self.seq(a, False)
        raise Unsupported('rule ' + canon(t))
    def must(self, t, act):
        v = self.rule(t, act)
        if v != 'true':
            self.raised.add('Parse_error')
            self.emit('if not %s then raise Parse_error;' % v)

def make(prog, key, tags=None):
    return (RuleTr if key.startswith('rule ') else Tr)(prog, key, tags)
