"""C22: no function of the library writes, or hands out for writing, an object
of static storage duration that is shared between threads."""
import os

from sa import project

# C and C++ library functions with process-wide effects or static results
UNSAFE = {'setlocale', 'strtok', 'asctime', 'ctime', 'gmtime', 'localtime', 'rand', 'srand', 'tmpnam', 'setenv', 'unsetenv',
          'putenv', 'strerror', 'chdir', 'drand48', 'lrand48', 'mblen', 'mbtowc', 'wctomb', 'localeconv', 'std::setlocale',
          'std::locale::global', 'std::strtok', 'std::rand', 'std::srand', 'std::set_terminate', 'std::set_new_handler',
          'std::ios_base::sync_with_stdio', 'std::filesystem::current_path', 'std::tmpnam', 'std::localtime', 'std::gmtime',
          'std::asctime', 'std::ctime', 'umask', 'signal', 'std::signal'}
SYNC = ('std::atomic', 'std::mutex', 'std::once_flag', 'std::recursive_mutex', 'std::shared_mutex', 'std::atomic_flag',
        'std::__atomic_base', 'std::condition_variable')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
STREAM_OK = ('std::cout', 'std::cerr', 'std::clog', 'stdout', 'stderr', 'std::wcout', 'std::wcerr')


def run(r):
    r.rule = ('no library function modifies an object with static storage duration (global, static member, function-local static) '
              'that is not thread-local, atomic or a synchronisation object: no assignment, increment, non-const member call, '
              'binding to a non-const reference or pointer, or removal of constness reaches one; and no C library function with '
              'process-wide effects is called')
    p = project.load()
    allf = [f for f in p.fns.values() if f['l'][0].startswith(project.REPO)]
    # what the public operations can reach (vendored code has parts nothing calls)
    todo = [f for f in allf if '/miniz/' not in f['l'][0]]
    reach = {f['m'] for f in todo}
    while todo:
        f = todo.pop()
        for root in [f.get('body')] + [i['e'] for i in f.get('inits', ())]:
            for n in project.walk(root):
                fn = n.get('fn')
                if isinstance(fn, dict) and fn['m'] not in reach and fn['m'] in p.fns:
                    reach.add(fn['m'])
                    todo.append(p.fns[fn['m']])
                if n.get('k') == 'ref' and n.get('g') in p.globals and n['g'] not in reach:
                    # a table of functions
                    reach.add(n['g'])
                    for m in project.walk(p.globals[n['g']].get('init') or {}):
                        fn = m.get('fn')
                        if isinstance(fn, dict) and fn['m'] not in reach and fn['m'] in p.fns:
                            reach.add(fn['m'])
                            todo.append(p.fns[fn['m']])
    lib = [f for f in allf if f['m'] in reach]
    r.count('functions', len(lib))
    r.count('functions nothing reaches', len(allf) - len(lib))
    objs = {}
    for g in p.globals.values():
        if g['l'][0].startswith(project.REPO):
            objs[g['g']] = g
    r.count('objects with static storage duration', len(objs))
    bad = {}
    unsure = {}
    for f in lib:
        locked = any(n.get('k') == 'decl' and any(v['t'].q in LOCKS for v in n['v']) for n in project.walk(f.get('body') or {}))
        roots = [f.get('body')] + [i['e'] for i in f.get('inits', ())]
        for root in roots:
            for n, why in uses(root):
                g = n['g']
                if n.get('q') in STREAM_OK:
                    continue
                if why is None:
                    r.count('reads of static objects')
                    continue
                o = objs.get(g)
                t = n['t'] if o is None else o['t']
                if o is not None and o.get('tls'):
                    continue
                while t.k == 'array':
                    t = t.e
                if t.k == 'rec' and (t.q or '').startswith(SYNC):
                    continue
                k = '%s: %s' % (name(f), n.get('n'))
                msg = ('%s of the shared object %s' % (why, n.get('n')), p.rel(n['l']))
                (unsure if locked else bad)[k] = msg
        for n in project.walk(f.get('body') or {}):
            fn = n.get('fn')
            if n.get('k') in ('call', 'mcall') and fn:
                r.count('call sites')
                if fn['q'] in UNSAFE and not (fn['q'].endswith('current_path') and not n.get('args')):
                    if fn['q'].endswith('setlocale') and len(n['args']) > 1 and n['args'][1].get('k') in ('null',):
                        continue
                    bad['%s: call of %s' % (name(f), fn['q'])] = ('calls %s, whose effect or result is shared by all threads' % fn['q'], p.rel(n['l']))
    for k, (w, l) in unsure.items():
        r.unsure(k, w + ' under a lock', l)
    for k, (w, l) in bad.items():
        r.bad(k, w, l)
    for g in objs.values():
        k = 'object %s' % g['q']
        w = p.rel(g['l'])
        mut = not g['const']
        if any(n.get('n') == g['n'] for n in ()) or any(kk.endswith(': ' + g['n']) for kk in bad):
            continue
        r.ok(k, ('thread-local' if g.get('tls') else 'mutable, but never written' if mut else 'constant'), w)
    for f in lib:
        k = name(f)
        if not any(x.startswith(k + ': ') for x in list(bad) + list(unsure)):
            r.ok('function ' + k + ' ' + f['m'], 'writes no shared object', p.rel(f['l']))
    # the rule still recognises a write
    if not any(True for _ in selftest()):
        raise project.AnalysisBroken('the write detector is broken')
    return 100


def name(f):
    return f['q']


def selftest():
    n = {'k': 'assign', 'a': {'k': 'ref', 'g': 'x', 'n': 'x', 'lv': True, 'l': ('', 0), 't': None}, 'b': {'k': 'int', 'c': '1'}}
    for m, why in uses(n):
        if why:
            yield m


def constq(t):
    while t is not None and t.k == 'array':
        t = t.e
    return t is not None and t.const


def uses(root):
    """(reference node, None | how it is modified) for every mention of a static object"""
    out = []

    def const_ptr(t):
        return t.k in ('ptr', 'ref') and constq(t.e)

    def lv(n, ctx):
        """n is an lvalue expression; ctx: how the lvalue is used"""
        k = n.get('k')
        if k == 'ref':
            if 'g' in n:
                out.append((n, ctx))
            return
        if k == 'mem':
            if n.get('arrow'):
                rv(n['b'])
            else:
                lv(n['b'], None if n.get('mut') and ctx is None else ctx)
            return
        if k == 'idx':
            a = n['a']
            if a.get('k') == 'cast' and a.get('ck') == 'ArrayToPointerDecay':
                lv(a['e'], ctx)
            else:
                rv(a)
            rv(n['b'])
            return
        if k == 'cond':
            rv(n['x'])
            lv(n['a'], ctx)
            lv(n['b'], ctx)
            return
        if k == 'cast':
            if n.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived'):
                # binding to const is a read; casting constness away is not
                if n['ck'] == 'NoOp' and constq(n['t']) and not constq(n['e'].get('t')):
                    ctx = None
                if n['ck'] == 'NoOp' and not constq(n['t']) and constq(n['e'].get('t')):
                    ctx = ctx or None
                    if n.get('expl'):
                        ctx = 'removal of the constness'
                lv(n['e'], ctx)
                return
            rv(n)
            return
        if k in ('assign', 'cassign'):
            lv(n['a'], 'assignment')
            rv(n['b'])
            return
        if k == 'un' and n['op'] in ('++', '--'):
            lv(n['e'], 'increment or decrement')
            return
        rv(n)

    def arg(n):
        """an expression passed to / bound to something: glvalues are bound by reference"""
        if not isinstance(n, dict):
            return
        if n.get('lv'):
            t = n.get('t')
            lv(n, None if constq(t) else 'binding to a non-const reference')
        else:
            rv(n)

    def rv(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                rv(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'cast':
            ck = n.get('ck')
            if ck == 'LValueToRValue':
                lv(n['e'], None)
                return
            if ck == 'ArrayToPointerDecay':
                # decays to a pointer: who may write through it is decided by the pointer's type
                t = n['t']
                lv(n['e'], None if const_ptr(t) or constq(n['e'].get('t')) else 'taking a non-const pointer')
                return
            if ck == 'NoOp' and not n.get('lv') and n['t'].k == 'ptr' and constq(n['t'].e):
                e = n['e']
                if e.get('k') == 'cast' and e.get('ck') == 'ArrayToPointerDecay':
                    lv(e['e'], None)
                    return
                if e.get('k') == 'un' and e.get('op') == '&':
                    lv(e['e'], None)
                    return
            if n.get('lv'):
                lv(n, None)
                return
            rv(n['e'])
            return
        if k == 'un' and n.get('op') == '&':
            e = n['e']
            lv(e, None if constq(e.get('t')) else 'taking a non-const pointer')
            return
        if k == 'un' and n['op'] in ('++', '--'):
            lv(n['e'], 'increment or decrement')
            return
        if k in ('assign', 'cassign'):
            lv(n['a'], 'assignment')
            rv(n['b'])
            return
        if k == 'mcall':
            o = n.get('o')
            if o is not None:
                if n.get('arrow'):
                    rv(o)
                else:
                    lv(o, None if n.get('fn', {}).get('const') or not o.get('lv') or constq(o.get('t')) else 'non-const member call')
            for a in n.get('args', ()):
                arg(a)
            return
        if k in ('call', 'ocall', 'ctor', 'list'):
            for a in n.get('args', ()):
                arg(a)
            rv(n.get('callee'))
            return
        if k == 'ref':
            if 'g' in n:
                lv(n, None)
            return
        if k in ('mem', 'idx', 'cond') and n.get('lv'):
            lv(n, None)
            return
        if k == 'decl':
            for v in n['v']:
                if v.get('static') or ('g' in v and not v.get('tls') and False):
                    pass
                i = v.get('init')
                if i is not None:
                    if v['t'].k == 'ref':
                        arg(i)
                    else:
                        rv(i)
            return
        if k == 'ret':
            e = n.get('e')
            if isinstance(e, dict):
                arg(e)
            return
        if k == 'expr':
            e = n.get('e')
            if isinstance(e, dict) and e.get('lv'):
                lv(e, None)
            else:
                rv(e)
            return
        if k in ('full', 'mat'):
            e = n['e']
            if isinstance(e, dict) and e.get('lv'):
                lv(e, None)
            else:
                rv(e)
            return
        for kk, v in n.items():
            if kk in ('fn', 't', 'l'):
                continue
            if isinstance(v, (dict, list)):
                rv(v)

    rv(root)
    return out
