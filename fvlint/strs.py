"""Value-graph models of strings, option trees and token streams.

Strings are constants: the abstract domain of a string option is one constant per documented keyword plus one marker ('?name') that stands for
every other string, so that the analysed code is followed by constant propagation and never by enumerating paths."""
from . import vg
from .vg import Opaque, Ptr, Obj, Num, Node, UNDEF, ZERO, ONE, const, ap, EngineLimit, Fraction


NPOS = const(2 ** 64 - 1)


def S(t):
    return Opaque('str:' + t)


def text_of(eng, v):
    """python text of a string value; None when it is not a known string"""
    while isinstance(v, Ptr):
        x = eng.st.mem.get(v.key())
        if x is None:
            return '' if v.o is not None and 'basic_string' in (v.o.cls or 'basic_string') else None
        v = x
    if isinstance(v, Opaque) and isinstance(v.tag, str) and v.tag.startswith('str:'):
        return v.tag[4:]
    return None


def need(eng, a, env):
    v = eng.rv(a, env)
    t = text_of(eng, v)
    if t is None and eng.st.dead is True:
        return ''                            # after an exception
    if t is None:
        raise EngineLimit('string of unknown value at line %s of %s (%r)' % (eng.curline, eng.cur[-1:], v))
    return t


def isstr(t):
    t = vg.clean(t)
    return 'basic_string<' in t and 'stream' not in t or t in ('char *', 'const char *') or t.startswith(('char[', 'const char['))


def upper(t):
    return t if t.startswith('^') else '^' + t if t.startswith('?') else t.upper()


def lower(t):
    return t if t.startswith('_') else '_' + t if t.startswith('?') else t.lower()


class Options:
    """what the analysed program can read: a property tree, command line variables and PETSc options"""
    def __init__(self, tree, cmd=(), petsc=(), bctypes=()):
        self.tree, self.cmd, self.petsc, self.bctypes = dict(tree), dict(cmd), dict(petsc), dict(bctypes)
        self.read = set()
        self.missing = []

    def has(self, path):
        return path in self.tree or any(k.startswith(path + '.') for k in self.tree)

    def value(self, eng, path, t):
        self.read.add(path)
        v = self.tree[path]
        return self.convert(eng, v, t, path)

    def convert(self, eng, v, t, path):
        t = vg.clean(t)
        if 'basic_string' in t:
            return S(v if isinstance(v, str) else '?' + path)
        if t == 'bool':
            return bool(v)
        if isinstance(v, (int, Fraction)):
            return const(v)
        return eng.atom('opt:' + (v if isinstance(v, str) else path))


def install(eng, opt):
    M = eng.models

    def strctor(eng, p, e, d, env):
        a = [x for x in e['args'] if 'allocator' not in x['t']]
        t = need(eng, a[0], env) if a else ''
        eng.store(eng.st, p, S(t))
        return S(t)
    M['ctor:basic_string'] = strctor
    for n in ('allocator', 'locale', 'id_translator'):
        M['ctor:' + n] = lambda eng, p, e, d, env: Opaque('void')

    def path_ctor(eng, p, e, d, env):
        eng.store(eng.st, p, S(need(eng, e['args'][0], env)))
    M['ctor:string_path'] = path_ctor
    subtree = {}

    def ctor_ptree(eng, p, e, d, env):
        if len(e['args']) == 1 and 'ptree' in vg.clean(e['args'][0]['t']):
            q = eng.lv_or_ptr(e['args'][0], env, False)
            if isinstance(q, Ptr) and q.o in subtree:
                subtree[p.o] = subtree[q.o]
    M['ctor:basic_ptree'] = ctor_ptree

    def pathof(eng, e, obj, arg, env):
        """full path of an option: subtrees handed out by get_child carry their prefix"""
        path = need(eng, arg, env)
        q = eng.lv_or_ptr(obj, env, e.get('arrow'))
        return subtree[q.o] + '.' + path if isinstance(q, Ptr) and q.o in subtree else path

    def child(path):
        o = Obj('subtree', cls='ptree')
        subtree[o] = path
        return Ptr(o)

    def assign(eng, e, d, obj, args, env):
        t = need(eng, args[0], env)
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        eng.store(eng.st, p, S(t))
        return p
    M['basic_string::operator='] = assign
    M['basic_string::assign'] = assign

    def value(eng, e, d, obj, args, env):
        return S(need(eng, obj, env))
    for n in ('c_str', 'data', 'str'):
        M['basic_string::' + n] = value
    M['basic_string::empty'] = lambda eng, e, d, obj, args, env: need(eng, obj, env) == ''

    def cat(eng, e, d, obj, args, env):
        if 'basic_string' not in d.get('ret', ''):
            return NotImplemented
        ops = ([obj] if obj is not None else []) + list(args)
        return S(''.join(need(eng, a, env) for a in ops))
    M['operator+'] = cat

    def append(eng, e, d, obj, args, env):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        t = text_of(eng, p) + need(eng, args[0], env)
        eng.store(eng.st, p, S(t))
        return p
    M['basic_string::operator+='] = append
    M['basic_string::append'] = append

    def equal(neg):
        def g(eng, e, d, obj, args, env):
            ops = ([obj] if obj is not None else []) + list(args)
            if not (any('basic_string<' in vg.clean(a['t']) for a in ops) and all(isstr(a['t']) for a in ops)):
                return NotImplemented
            a, b = (need(eng, x, env) for x in ops)
            return (a == b) != neg
        return g
    M['operator=='] = equal(False)
    M['operator!='] = equal(True)

    def compare(eng, e, d, obj, args, env):
        a, b = need(eng, obj, env), need(eng, args[0], env)
        return const((a > b) - (a < b))
    M['basic_string::compare'] = compare

    eng.st.mem[Ptr(eng.gzero.setdefault(('g', 'std::basic_string<char>::npos'), Obj('::npos', sym=True))).key()] = NPOS

    def find(eng, e, d, obj, args, env):
        if obj is None or 'basic_string' not in vg.clean(obj['t']):
            return NotImplemented
        t = need(eng, obj, env)
        v = eng.rv(args[0], env)
        x = text_of(eng, v)
        if x is None and isinstance(v, Num) and v.c is not None:
            x = chr(int(v.c))
        pos = eng.tonum(eng.rv(args[1], env)) if len(args) > 1 else ZERO
        if x is None or pos.c is None:
            return NotImplemented
        f = {'find': lambda: t.find(x, int(pos.c)), 'rfind': lambda: t.rfind(x),
             'find_first_of': lambda: min([i for i in range(int(pos.c), len(t)) if t[i] in x], default=-1)}[d['name']]()
        return NPOS if f < 0 else const(f)
    for n in ('find', 'rfind', 'find_first_of'):
        M['basic_string::' + n] = find

    def substr(eng, e, d, obj, args, env):
        t = need(eng, obj, env)
        v = [eng.tonum(eng.rv(a, env)) for a in args]
        if any(x.c is None for x in v):
            return NotImplemented
        a = int(v[0].c) if v else 0
        n = int(v[1].c) if len(v) > 1 else len(t)
        if a > len(t):
            eng.throws.append(('std::out_of_range', eng.pathcond(), str(eng.curline)))
            eng.st.dead = True
            return UNDEF
        return S(t[a:a + n])
    M['basic_string::substr'] = substr
    for n in ('size', 'length'):
        M['basic_string::' + n] = lambda eng, e, d, obj, args, env: const(len(need(eng, obj, env)))

    def char_at(eng, e, d, obj, args, env):
        i = eng.tonum(eng.rv(args[0], env))
        t = need(eng, obj, env)
        if i.c is None or not 0 <= i.c < len(t):
            return NotImplemented
        return const(ord(t[int(i.c)]))
    M['basic_string::operator[]'] = M['basic_string::at'] = char_at
    M['is_any_of'] = lambda eng, e, d, obj, args, env: Opaque('anyof:' + need(eng, args[0], env))

    def split(eng, e, d, obj, args, env):
        out = eng.lv(args[0], env)
        t = need(eng, args[1], env)
        v = eng.rv(args[2], env)
        while isinstance(v, Ptr):
            v = eng.st.mem.get(v.key())
        if not isinstance(v, Opaque) or not str(v.tag).startswith('anyof:'):
            return NotImplemented
        parts = ['']
        for c in t:
            if c in v.tag[6:]:
                parts.append('')
            else:
                parts[-1] += c
        for i, x in enumerate(parts):
            eng.store(eng.st, eng.padd(eng.field(out, '_a'), const(i), 'double *'), S(x))
        eng.store(eng.st, eng.field(out, '_size'), const(len(parts)))
        return out
    M['split'] = split

    def strstr(eng, e, d, obj, args, env):
        a, b = need(eng, args[0], env), need(eng, args[1], env)
        return S(a[a.find(b):]) if b in a else vg.NULL
    M['strstr'] = strstr

    def strncmp(eng, e, d, obj, args, env):
        a, b = need(eng, args[0], env), need(eng, args[1], env)
        n = eng.tonum(eng.rv(args[2], env))
        if n.c is None:
            return NotImplemented
        a, b = a[:int(n.c)], b[:int(n.c)]
        return const((a > b) - (a < b))
    M['strncmp'] = strncmp

    def strcmp(eng, e, d, obj, args, env):
        a, b = need(eng, args[0], env), need(eng, args[1], env)
        return const((a > b) - (a < b))
    M['strcmp'] = strcmp
    M['to_upper_copy'] = lambda eng, e, d, obj, args, env: S(upper(need(eng, args[0], env)))
    M['to_lower_copy'] = lambda eng, e, d, obj, args, env: S(lower(need(eng, args[0], env)))

    def inplace(f):
        def g(eng, e, d, obj, args, env):
            p = eng.lv(args[0], env)
            eng.store(eng.st, p, S(f(text_of(eng, p))))
            return Opaque('void')
        return g
    M['to_upper'] = inplace(upper)
    M['to_lower'] = inplace(lower)

    def to_string(eng, e, d, obj, args, env):
        v = eng.tonum(eng.rv(args[0], env))
        if isinstance(v, Num) and v.c is not None:
            return S(str(v.c))
        return S('?num')
    M['to_string'] = to_string

    # -- option tree
    def read_info(eng, e, d, obj, args, env):
        return Opaque('void')
    M['read_info'] = read_info

    def missing(eng, path):
        opt.missing.append(path)
        eng.throws.append(('boost::property_tree::ptree_bad_path', eng.pathcond(), '%s' % eng.curline))
        eng.st.dead = True
        return UNDEF

    def get(eng, e, d, obj, args, env):
        path = pathof(eng, e, obj, args[0], env)
        ret = vg.clean(d.get('ret', e['t']))
        rest = [a for a in args[1:] if 'translator' not in a['t']]
        if path in opt.tree:
            return opt.value(eng, path, ret)
        opt.read.add(path)
        if rest:
            v = eng.rv(rest[0], env)
            return S(text_of(eng, v)) if 'basic_string' in ret else v
        return missing(eng, path)
    M['basic_ptree::get'] = get

    def optional(eng, has, v):
        p = Ptr(Obj('optional', cls='boost::optional'))
        eng.store(eng.st, eng.field(p, '_has'), has)
        if has:
            eng.store(eng.st, eng.field(p, '_v'), v)
        return p

    def get_optional(eng, e, d, obj, args, env):
        path = pathof(eng, e, obj, args[0], env)
        ret = d.get('ret', '')
        t = ret[ret.find('<') + 1:]
        opt.read.add(path)
        if not opt.has(path):
            return optional(eng, False, None)
        # an interior node exists and carries an empty text
        if path not in opt.tree:
            if 'basic_string' in t.split('>')[0]:
                return optional(eng, True, S(''))
            return optional(eng, False, None)
        return optional(eng, True, opt.value(eng, path, 'std::basic_string<char>' if 'basic_string' in t else t.split('>')[0]))
    M['basic_ptree::get_optional'] = get_optional

    def get_child_optional(eng, e, d, obj, args, env):
        path = pathof(eng, e, obj, args[0], env)
        return optional(eng, opt.has(path), child(path))
    def get_child(eng, e, d, obj, args, env):
        path = pathof(eng, e, obj, args[0], env)
        opt.read.add(path)
        return child(path) if opt.has(path) else missing(eng, path)
    M['basic_ptree::get_child'] = get_child
    M['basic_ptree::get_child_optional'] = get_child_optional

    def count(eng, e, d, obj, args, env):
        if 'variables_map' in vg.clean(obj['t']) or obj.get('k') == 'Cast' and 'variables_map' in vg.clean(obj['e']['t']):
            return ONE if need(eng, args[0], env) in opt.cmd else ZERO
        if 'ptree' in vg.clean(obj['t']):
            path = pathof(eng, e, obj, args[0], env)
            return ONE if opt.has(path) else ZERO
        return NotImplemented
    M['count'] = count

    def opt_bool(eng, e, d, obj, args, env):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        return eng.load(eng.st, eng.field(p, '_has'), 'bool')
    for n in ('operator bool', 'is_initialized', 'has_value'):
        M['optional::' + n] = opt_bool

    def opt_get(eng, e, d, obj, args, env):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        has = eng.load(eng.st, eng.field(p, '_has'), 'bool')
        if has is not True:
            eng.ubs.append('reads an absent optional value near line %s of %s' % (eng.curline, eng.cur[-1:]))
            return UNDEF
        q = eng.field(p, '_v')
        return q
    for n in ('operator*', 'get', 'value'):
        M['optional::' + n] = opt_get

    def opt_value_or(eng, e, d, obj, args, env):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        if eng.load(eng.st, eng.field(p, '_has'), 'bool') is True:
            return eng.st.mem.get(eng.field(p, '_v').key())
        return eng.rv(args[0], env)
    for n in ('value_or', 'get_value_or'):
        M['optional::' + n] = opt_value_or

    # -- command line
    def cmd_index(eng, e, d, obj, args, env):
        return Opaque('cmd:' + need(eng, args[0], env))
    M['variables_map::operator[]'] = cmd_index
    M['abstract_variables_map::operator[]'] = cmd_index

    def cmd_as(eng, e, d, obj, args, env):
        v = eng.rv(obj, env)
        while isinstance(v, Ptr):
            v = eng.load(eng.st, v, '?')
        name = v.tag[4:]
        x = opt.cmd.get(name)
        if x is None:
            eng.throws.append(('boost::bad_any_cast', eng.pathcond(), str(eng.curline)))
            eng.st.dead = True
            return UNDEF
        return S(x) if isinstance(x, str) else x
    M['variable_value::as'] = cmd_as

    def petsc_string(eng, e, d, obj, args, env):
        name = need(eng, args[2], env)
        buf, sett = eng.rv(args[3], env), eng.rv(args[5], env)
        if name in opt.petsc:
            eng.store(eng.st, buf, S(opt.petsc[name]))
            if sett.o is not None:
                eng.store(eng.st, sett, ONE)
        elif sett.o is not None:
            eng.store(eng.st, sett, ZERO)
        return ZERO
    M['PetscOptionsGetString'] = petsc_string

    def petsc_number(eng, e, d, obj, args, env):
        name = need(eng, args[2], env)
        q, sett = eng.rv(args[3], env), eng.rv(args[4], env)
        if name in opt.petsc:
            eng.store(eng.st, q, opt.petsc[name])
        if sett.o is not None:
            eng.store(eng.st, sett, ONE if name in opt.petsc else ZERO)
        return ZERO
    M['PetscOptionsGetReal'] = M['PetscOptionsGetInt'] = M['PetscOptionsGetScalar'] = M['PetscOptionsGetBool'] = petsc_number

    def petsc_has(eng, e, d, obj, args, env):
        eng.store(eng.st, eng.rv(args[3], env), ONE if need(eng, args[2], env) in opt.petsc else ZERO)
        return ZERO
    M['PetscOptionsHasName'] = petsc_has

    # -- token streams
    def ss_ctor(eng, p, e, d, env):
        eng.store(eng.st, eng.field(p, '_text'), S(need(eng, e['args'][0], env) if e['args'] else ''))
        eng.store(eng.st, eng.field(p, '_pos'), ZERO)
        eng.store(eng.st, eng.field(p, '_ok'), True)
    for n in ('basic_stringstream', 'basic_istringstream'):
        M['ctor:' + n] = ss_ctor

    def shift(eng, e, d, obj, args, env):
        if obj is None or 'stream' not in vg.clean(obj['t']):
            return NotImplemented
        p = eng.lv(obj, env)
        t = text_of(eng, eng.st.mem.get(eng.field(p, '_text').key()))
        if t is None:
            return NotImplemented
        pos = int(eng.load(eng.st, eng.field(p, '_pos'), 'int').c)
        toks = t.split()
        if pos < len(toks):
            v = toks[pos]
            q = eng.lv(args[0], env)
            if isstr(args[0]['t']):
                eng.store(eng.st, q, S(v))
            else:
                try:
                    num = const(Fraction(v))
                except ValueError:
                    num = eng.atom('opt:' + v)
                eng.store(eng.st, q, num)
            eng.store(eng.st, eng.field(p, '_pos'), const(pos + 1))
        else:
            eng.store(eng.st, eng.field(p, '_ok'), False)
        return p
    M['operator>>'] = shift

    def ss_ok(neg):
        def g(eng, e, d, obj, args, env):
            p = eng.lv(obj, env)
            v = eng.load(eng.st, eng.field(p, '_ok'), 'bool')
            return v if not neg else vg.bnot(v)
        return g
    M['basic_ios::operator bool'] = ss_ok(False)
    M['basic_ios::good'] = ss_ok(False)
    M['basic_ios::operator!'] = ss_ok(True)
    M['basic_ios::fail'] = ss_ok(True)

    def bimap_at(eng, e, d, obj, args, env):
        if len(args) != 1 or not isstr(args[0]['t']):
            return NotImplemented
        t = need(eng, args[0], env)
        if t not in opt.bctypes:
            eng.throws.append(('std::out_of_range', eng.pathcond(), str(eng.curline)))
            eng.st.dead = True
            return UNDEF
        return const(opt.bctypes[t])
    M['non_mutable_data_unique_map_view_access::at'] = bimap_at
