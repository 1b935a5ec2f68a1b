"""Rewrite of standard algorithms on ranges, and of loops over initializer lists, to plain loops over elements."""
import copy, re

LOOPS = ('For', 'ForRange', 'While', 'Do')


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) - {'l'} == set(b) - {'l'} and all(same(a[k], b[k]) for k in a if k != 'l')
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def strip(e):
    while e['k'] == 'Ctor' and e.get('copy') and e.get('args') or e['k'] == 'Cast' and not e.get('explicit') and 'cv' not in e:
        e = e['args'][0] if e['k'] == 'Ctor' else e['e']
    return e


def elem_type(t):
    t = t.strip()
    if '__normal_iterator<' in t:
        t = t.split('__normal_iterator<', 1)[1].split(',')[0].strip()
    m = re.match(r'^(.*?)\[\d+\]$', t)
    if m and '[' not in m.group(1):
        return m.group(1).strip()
    while '*' in t and t.endswith(('const', '__restrict', '__restrict__', 'restrict')):
        t = t[:t.rstrip('_').rfind('const' if t.endswith('const') else '__restrict' if '__restrict' in t else 'restrict')].strip()
    return t[:-1].strip() if t.endswith('*') else None


def jumps(s, kinds, top=True):
    """a break/continue that belongs to this body"""
    if isinstance(s, dict):
        if s.get('k') in kinds:
            return True
        if s.get('k') in LOOPS or s.get('k') == 'Lambda' or (s.get('k') == 'Switch' and kinds == ('Break',)):
            return False
        return any(jumps(v, kinds, False) for v in s.values() if isinstance(v, (dict, list)))
    return any(jumps(v, kinds, False) for v in s)


def pure(e):
    if isinstance(e, list):
        return all(pure(x) for x in e)
    if not isinstance(e, dict):
        return True
    if e.get('k') in ('Asg', 'New', 'Delete', 'Throw', 'Lambda', 'Call', 'Ctor') or e.get('k') == 'Un' and e['op'] in ('++', '--'):
        return False
    return all(pure(v) for v in e.values() if isinstance(v, (dict, list)))


def subst(e, m):
    if isinstance(e, list):
        return [subst(x, m) for x in e]
    if not isinstance(e, dict):
        return e
    if e.get('k') == 'Ref' and e.get('id') in m:
        return copy.deepcopy(m[e['id']])
    return {k: subst(v, m) if isinstance(v, (dict, list)) else v for k, v in e.items()}


def only_break(s):
    while s['k'] == 'Block' and len(s['body']) == 1:
        s = s['body'][0]
    return s['k'] == 'Break'


class Desugar:
    next = 10 ** 6

    def __init__(self, prog, decls):
        self.prog = prog
        self.decls = decls

    def new(self):
        Desugar.next += 1
        return Desugar.next

    def function(self, f):
        f.body = self.stmt(f.body)

    def stmt(self, s):
        """rewrite in place (returns the replacement)"""
        if isinstance(s, list):
            for i, x in enumerate(s):
                if isinstance(x, (dict, list)):
                    s[i] = self.stmt(x)
            return s
        if not isinstance(s, dict):
            return s
        for k, v in s.items():
            if isinstance(v, (dict, list)):
                s[k] = self.stmt(v)
        if s.get('k') == 'Block':
            out = []
            for x in s['body']:
                out += self.rangector(x)
            s['body'] = out
        if s.get('k') == 'ForRange':
            return self.initlist(s)
        if s.get('k') in ('While', 'For'):
            self.leading_break(s)
        if s.get('k') == 'Expr' and isinstance(s.get('e'), dict):
            return self.algo(s) or s
        if s.get('k') == 'Call':
            return self.fold(s) or s
        return s

    def fold(self, e):
        """any_of, all_of, none_of, count, count_if over a range as an expression with statements"""
        d = self.decls.get(e['fn'])
        if d is None or not d.get('q', '').startswith('std::') or d.get('cls') or d['name'] not in ('any_of', 'all_of', 'none_of', 'count', 'count_if'):
            return None
        a, l, name = e['args'], e.get('l'), d['name']
        if len(a) != 3 or elem_type(a[0]['t']) is None:
            return None
        r = self.new()
        t = 'long' if 'count' in name else 'bool'
        ref = lambda: {'k': 'Ref', 'dk': 'local', 'id': r, 'n': '__r', 't': t, 'l': l}
        lit = lambda v: {'k': 'Int', 'cv': v, 't': t, 'l': l}

        def test(k):
            x = self.at(a[0], k(), l)
            if name == 'count':
                return {'k': 'Bin', 'op': '==', 'a': x, 'b': copy.deepcopy(a[2]), 't': 'bool', 'l': l}
            return self.lam(a[2], l, x)
        if name != 'count' and strip(a[2])['k'] != 'Lambda':
            return None
        f = self.loop(self.length(a[0], a[1], l), lambda k: {'k': 'Int', 'cv': 0, 't': 'int'}, l)
        k = lambda: {'k': 'Ref', 'dk': 'local', 'id': f['init']['vars'][0]['id'], 'n': '__k', 't': 'long', 'l': l}
        c = test(k)
        if name == 'all_of':
            c = {'k': 'Un', 'op': '!', 'e': c, 't': 'bool', 'l': l}
        act = {'k': 'Un', 'op': '++', 'e': ref(), 't': t, 'l': l} if t == 'long' else {'k': 'Asg', 'op': '=', 'a': ref(), 'b': lit(int(name == 'any_of')), 't': t, 'l': l}
        f['body'] = {'k': 'If', 'l': l, 'c': c, 'a': {'k': 'Expr', 'l': l, 'e': act}, 'b': None, 'init': None, 'cvar': None}
        v = {'id': r, 'n': '__r', 't': t, 'is': 'c', 'l': l, 'init': lit(int(name in ('all_of', 'none_of')))}
        return {'k': 'StmtExpr', 'l': l, 't': e['t'], 'body': {'k': 'Block', 'l': l, 'endl': l, 'body': [{'k': 'Decl', 'l': l, 'vars': [v]}, f]}, 'e': ref()}

    def lam(self, x, l, *args):
        f = strip(x)
        if f['k'] != 'Lambda':
            return None
        ret = self.decls.get(f['fn'], {}).get('ret', 'double')
        return {'k': 'Call', 'fn': f['fn'], 'args': [copy.deepcopy(f)] + list(args), 'opc': 'operator()', 'memop': True, 't': ret.rstrip('& '), 'l': l}

    def rangector(self, s):
        """vector<T> v(first, last)  ->  vector<T> v(n); for(k < n) v[k] = first[k]"""
        if s.get('k') != 'Decl' or len(s['vars']) != 1:
            return [s]
        v = s['vars'][0]
        e = v.get('init')
        while e and e['k'] == 'Ctor' and e.get('elide') and len(e['args']) == 1:
            e = e['args'][0]
        if not e or e['k'] != 'Ctor' or e.get('copy') or not e['t'].replace('const ', '').startswith('std::vector<') or len(e['args']) < 2:
            return [s]
        a = e['args']
        t = elem_type(a[0]['t'])
        if t is None or elem_type(a[1]['t']) is None or any('*' in x['t'] or 'iterator' in x['t'] for x in a[2:]):
            return [s]
        l = s.get('l')
        e['args'] = [self.length(a[0], a[1], l)] + a[2:]
        ref = {'k': 'Ref', 'dk': 'local', 'id': v['id'], 'n': v['n'], 't': v['t'].replace('const ', ''), 'l': l}
        t = t.replace('const ', '').strip()
        f = self.loop(self.length(a[0], a[1], l), lambda k: {'k': 'Asg', 'op': '=', 'a': self.member('operator[]', ref, [k()], t, l), 'b': self.at(a[0], k(), l), 't': t, 'l': l}, l)
        return [s, f]

    def leading_break(self, s):
        """while(true) { const T v = x; if(v) break; ... }  ->  while(!x) { const T v = x; ... }"""
        c = s.get('c')
        b = s['body']
        if c is not None and strip(c).get('cv') not in (1, True) and not (strip(c)['k'] == 'Int' and strip(c).get('cv')) or b['k'] != 'Block':
            return
        sub = {}
        for i, x in enumerate(b['body']):
            if x['k'] == 'Decl' and all(v.get('init') and not v.get('ref') and pure(v['init']) for v in x['vars']):
                for v in x['vars']:
                    sub[v['id']] = subst(v['init'], sub)
                continue
            if x['k'] == 'If' and not x.get('b') and not x.get('cvar') and not x.get('init') and pure(x['c']) and only_break(x['a']):
                s['c'] = {'k': 'Un', 'op': '!', 'e': subst(x['c'], sub), 't': 'bool', 'l': x.get('l')}
                b['body'] = b['body'][:i] + b['body'][i + 1:]
            return

    def initlist(self, s):
        r = strip(s['range'])
        if r['k'] != 'StdInit' or r['e']['k'] != 'Init' or jumps(s['body'], ('Break',)):
            return s
        cont = jumps(s['body'], ('Continue',))
        out = []
        for x in r['e']['args']:
            v = dict(s['var'], init=copy.deepcopy(x), **{'is': 'c'})
            b = copy.deepcopy(s['body'])
            if cont:
                b = {'k': 'Do', 'l': s.get('l'), 'body': b, 'c': {'k': 'Int', 'cv': 0, 't': 'int', 'l': s.get('l')}}
            out.append({'k': 'Block', 'l': s.get('l'), 'endl': s.get('l'), 'body': [{'k': 'Decl', 'l': s.get('l'), 'vars': [v]}, b]})
        return {'k': 'Block', 'l': s.get('l'), 'endl': s.get('l'), 'body': out}

    # ---- algorithms -----------------------------------------------------------------------------------
    def member(self, name, obj, args, t, l):
        cls = obj['t'].replace('const ', '').rstrip('& ')
        key = '__synth:%s:%s' % (name, cls)
        self.decls.setdefault(key, {'name': name, 'q': cls + '::' + name, 'cls': cls, 'in': False, 'params': [{'n': 'n', 't': 'unsigned long'}] if args else [],
                                    'ret': t + (' &' if args else ''), 'file': '', 'line': 0})
        c = {'k': 'Call', 'fn': key, 'l': l, 't': t}
        if args:
            return dict(c, args=[copy.deepcopy(obj)] + args, opc=name, memop=True)
        return dict(c, args=[], obj=copy.deepcopy(obj))

    def whole(self, e, name):
        """the object whose begin()/end() e is"""
        e = strip(e)
        while e['k'] == 'Ctor' and len(e['args']) == 1 and '__normal_iterator' in e.get('t', ''):
            e = strip(e['args'][0])
        if e['k'] == 'Call' and e.get('obj') is not None and self.decls.get(e['fn'], {}).get('name') in (name, 'c' + name) and not e.get('arrow') \
                and e['obj']['t'].replace('const ', '').startswith(('std::vector<', 'std::array<')):
            return e['obj']
        return None

    def at(self, first, idx, l):
        t = elem_type(first['t'])
        ob = self.whole(first, 'begin')
        if ob is not None:
            return self.member('operator[]', ob, [idx], t, l)
        return {'k': 'Sub', 'b': copy.deepcopy(strip(first)), 'i': idx, 't': t, 'l': l}

    def length(self, first, last, l):
        a, b = strip(first), strip(last)
        if b['k'] == 'Bin' and b['op'] == '+' and same(strip(b['a']), a):
            return copy.deepcopy(b['b'])
        if a['k'] == 'Bin' and b['k'] == 'Bin' and a['op'] == b['op'] == '+' and same(strip(a['a']), strip(b['a'])):
            return {'k': 'Bin', 'op': '-', 'a': copy.deepcopy(b['b']), 'b': copy.deepcopy(a['b']), 't': 'long', 'l': l}
        if a['k'] == 'Bin' and b['k'] == 'Bin' and b['op'] == '+' and same(strip(b['a']), a):
            return copy.deepcopy(b['b'])
        ob, oe = self.whole(a, 'begin'), self.whole(b, 'end')
        if ob is not None and oe is not None and same(ob, oe):
            m = re.match(r'^(?:const )?std::array<.*, (\d+)>\W*$', ob['t'])
            if m:
                return {'k': 'Int', 'cv': int(m.group(1)), 't': 'unsigned long', 'l': l}
            return self.member('size', ob, None, 'unsigned long', l)

        def addr(e):
            if e['k'] == 'Un' and e['op'] == '&':
                x = strip(e['e'])
                if x['k'] == 'Sub':
                    return x['b'], x['i']
            return None
        pa, pb = addr(a), addr(b)
        if pa and pb and same(pa[0], pb[0]):
            return {'k': 'Bin', 'op': '-', 'a': copy.deepcopy(pb[1]), 'b': copy.deepcopy(pa[1]), 't': 'long', 'l': l}
        return {'k': 'Bin', 'op': '-', 'a': copy.deepcopy(b), 'b': copy.deepcopy(a), 't': 'long', 'l': l}

    def loop(self, n, body, l):
        """for(long k = 0; k < n; k++) body(k)"""
        i = self.new()
        ref = lambda: {'k': 'Ref', 'dk': 'local', 'id': i, 'n': '__k', 't': 'long', 'l': l}
        zero = {'k': 'Int', 'cv': 0, 't': 'int', 'l': l}
        return {'k': 'For', 'l': l, 'init': {'k': 'Decl', 'l': l, 'vars': [{'id': i, 'n': '__k', 't': 'long', 'is': 'c', 'l': l, 'init': zero}]},
                'c': {'k': 'Bin', 'op': '<', 'a': ref(), 'b': n, 't': 'bool', 'l': l},
                'inc': {'k': 'Un', 'op': '++', 'e': ref(), 't': 'long', 'l': l},
                'body': {'k': 'Expr', 'l': l, 'e': body(ref)}}

    def indexed(self, s, r):
        """for(x : v) over a vector as a loop over indices"""
        l = s.get('l')
        t = s['var']['t'].replace('const ', '').rstrip('& ').strip()
        f = self.loop(self.member('size', r, None, 'unsigned long', l), lambda k: {'k': 'Int', 'cv': 0, 't': 'int'}, l)
        k = {'k': 'Ref', 'dk': 'local', 'id': f['init']['vars'][0]['id'], 'n': '__k', 't': 'long', 'l': l}
        v = dict(s['var'], init=self.member('operator[]', r, [k], t, l), **{'is': 'c'})
        f['body'] = {'k': 'Block', 'l': l, 'endl': l, 'body': [{'k': 'Decl', 'l': l, 'vars': [v]}, s['body']]}
        return f

    def algo(self, s):
        e = s['e']
        while e['k'] == 'Cast':
            e = e['e']
        if e['k'] != 'Call':
            return None
        d = self.decls.get(e['fn'])
        if e.get('obj') is not None:
            m = re.match(r'^(?:const )?std::array<(.*), (\d+)>\W*$', e['obj']['t'])
            if m and not e.get('arrow') and d is not None and d['name'] == 'fill' and len(e['args']) == 1:
                l = e.get('l')
                return self.loop({'k': 'Int', 'cv': int(m.group(2)), 't': 'unsigned long', 'l': l},
                                 lambda k: {'k': 'Asg', 'op': '=', 'a': self.member('operator[]', e['obj'], [k()], m.group(1), l),
                                            'b': copy.deepcopy(e['args'][0]), 't': m.group(1), 'l': l}, l)
            if d is not None and d['name'] == 'insert' and len(e['args']) == 3 and d.get('cls', '').startswith('std::vector<') and not e.get('arrow'):
                a, l = e['args'], e.get('l')
                ob = self.whole(a[0], 'end')
                t = elem_type(a[1]['t'])
                if ob is not None and same(ob, e['obj']) and t and elem_type(a[2]['t']):
                    def push(k):
                        c = self.member('push_back', e['obj'], None, 'void', l)
                        self.decls[c['fn']]['params'] = [{'n': 'x', 't': t}]
                        return dict(c, args=[self.at(a[1], k(), l)])
                    return self.loop(self.length(a[1], a[2], l), push, l)
            return None
        if d is None or not d.get('q', '').startswith('std::') or d.get('cls'):
            return None
        a, l, name = e['args'], e.get('l'), d['name']
        if not a or elem_type(a[0]['t']) is None:
            return None
        asg = lambda p, v: {'k': 'Asg', 'op': '=', 'a': p, 'b': v, 't': p['t'], 'l': l}

        def lam(x, *args):
            f = strip(x)
            if f['k'] != 'Lambda':
                return None
            ret = self.decls.get(f['fn'], {}).get('ret', 'double')
            return {'k': 'Call', 'fn': f['fn'], 'args': [copy.deepcopy(f)] + list(args), 'opc': 'operator()', 'memop': True, 't': ret.rstrip('& '), 'l': l}
        if name == 'fill' and len(a) == 3:
            return self.loop(self.length(a[0], a[1], l), lambda k: asg(self.at(a[0], k(), l), copy.deepcopy(a[2])), l)
        if name == 'iota' and len(a) == 3:
            return self.loop(self.length(a[0], a[1], l), lambda k: asg(self.at(a[0], k(), l), {'k': 'Bin', 'op': '+', 'a': copy.deepcopy(a[2]), 'b': k(), 't': a[2]['t'], 'l': l}), l)
        if name == 'fill_n' and len(a) == 3:
            return self.loop(copy.deepcopy(a[1]), lambda k: asg(self.at(a[0], k(), l), copy.deepcopy(a[2])), l)
        if name == 'copy' and len(a) == 3 and elem_type(a[2]['t']):
            return self.loop(self.length(a[0], a[1], l), lambda k: asg(self.at(a[2], k(), l), self.at(a[0], k(), l)), l)
        if name == 'copy_n' and len(a) == 3 and elem_type(a[2]['t']):
            return self.loop(copy.deepcopy(a[1]), lambda k: asg(self.at(a[2], k(), l), self.at(a[0], k(), l)), l)
        if name == 'for_each' and len(a) == 3 and strip(a[2])['k'] == 'Lambda':
            return self.loop(self.length(a[0], a[1], l), lambda k: lam(a[2], self.at(a[0], k(), l)), l)
        if name == 'transform' and len(a) == 4 and strip(a[3])['k'] == 'Lambda' and elem_type(a[2]['t']):
            return self.loop(self.length(a[0], a[1], l), lambda k: asg(self.at(a[2], k(), l), lam(a[3], self.at(a[0], k(), l))), l)
        if name == 'transform' and len(a) == 5 and strip(a[4])['k'] == 'Lambda' and elem_type(a[3]['t']):
            return self.loop(self.length(a[0], a[1], l), lambda k: asg(self.at(a[3], k(), l), lam(a[4], self.at(a[0], k(), l), self.at(a[2], k(), l))), l)
        return None
