"""C22: programs that misuse the typed interface must not compile, their corrected twins must.

Every witness is a small translation unit against the current public headers, given to the compiler's semantic analysis only
(-fsyntax-only): nothing is run.  A witness consists of a program that must be accepted and a program that differs from it in
the misuse and must be rejected with an error in the source (not a crash or a missing header).  The relations between the
parameter types themselves (convertible, assignable, comparable, ...) are checked for every ordered pair with type traits.
"""
import os, re
import vt

TYPES = {  # parameter type -> (underlying type, value expression)
    'number_of_physical_classifier_clauses_per_label_t': ('int', '4'), 'number_of_physical_regressor_clauses_t': ('int', '4'), 'number_of_states_t': ('int', '10'),
    'specificity_t': ('Tsetlini::real_type', '2.0f'), 'threshold_t': ('int', '5'), 'weighted_flag_t': ('bool', 'true'), 'max_weight_t': ('int', '7'), 'boost_tpf_t': ('bool', 'true'),
    'number_of_jobs_t': ('int', '1'), 'verbosity_t': ('bool', 'false'), 'counting_type_t': ('std::string', 'std::string("auto")'), 'clause_output_tile_size_t': ('int', '16'),
    'loss_fn_name_t': ('std::string', 'std::string("MSE")'), 'loss_fn_C1_t': ('Tsetlini::real_type', '0.5f'), 'box_muller_flag_t': ('bool', 'true'), 'random_seed_t': ('Tsetlini::seed_type', '3'),
    'number_of_epochs_t': ('unsigned int', '2'), 'max_number_of_labels_t': ('int', '3'), 'number_of_features_t': ('int', '3'),
}
COMMON = ['number_of_states_t', 'specificity_t', 'threshold_t', 'weighted_flag_t', 'max_weight_t', 'boost_tpf_t', 'number_of_jobs_t', 'verbosity_t', 'counting_type_t', 'clause_output_tile_size_t', 'random_seed_t']
CLC = ['number_of_physical_classifier_clauses_per_label_t'] + COMMON
REG = ['number_of_physical_regressor_clauses_t'] + COMMON + ['loss_fn_name_t', 'loss_fn_C1_t', 'box_muller_flag_t']
FACT = {'make_classifier_classic': CLC, 'make_classifier_bitwise': CLC, 'make_regressor_classic': REG, 'make_regressor_bitwise': REG}
RAW = ['int', 'unsigned int', 'long', 'bool', 'char', 'float', 'double', 'char const *', 'std::string', 'std::nullptr_t']
EST = {  # estimator -> (sample matrix, targets, training arguments accepted, state)
    'ClassifierClassic': ('std::vector<aligned_vector_char>', 'label_vector_type', 'clc', 'ClassifierStateClassic'),
    'ClassifierBitwise': ('std::vector<bit_vector_uint64>', 'label_vector_type', 'clc', 'ClassifierStateBitwise'),
    'RegressorClassic': ('std::vector<aligned_vector_char>', 'response_vector_type', 'reg', 'RegressorStateClassic'),
    'RegressorBitwise': ('std::vector<bit_vector_uint64>', 'response_vector_type', 'reg', 'RegressorStateBitwise'),
}
PRE = '''#include "tsetlini.hpp"
#include "tsetlini_params.hpp"
#include "tsetlini_types.hpp"
#include "tsetlini_strong_params.hpp"
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
'''


def val(t):
    return '%s{%s}' % (t, TYPES[t][1])


def fun(body, params='', n=[0]):
    n[0] += 1
    return 'using namespace Tsetlini;\nvoid witness_(%s)\n{\n    %s\n}\n' % (params, body)


def witnesses(tier):
    """list of (group, what, anchor, must_compile, source)"""
    w = []

    def ok(g, what, anchor, src):
        w.append((g, what, anchor, True, src))

    def no(g, what, anchor, src):
        w.append((g, what, anchor, False, src))
    full = tier == 'thorough'
    for f, own in FACT.items():
        a = f
        call = lambda *xs: fun('auto e = %s(%s); (void)e;' % (f, ', '.join(xs)))
        ok('order', 'no arguments at all', a, call())
        ok('order', 'all arguments in the documented order', a, call(*[val(t) for t in own]))
        ok('order', 'all arguments in reverse order', a, call(*[val(t) for t in reversed(own)]))
        k = len(own) // 2
        ok('order', 'all arguments rotated', a, call(*[val(t) for t in own[k:] + own[:k]]))
        ok('order', 'all arguments as variables', a, fun(' '.join('%s v%d{%s};' % (t, i, TYPES[t][1]) for i, t in enumerate(own)) + ' auto e = %s(%s); (void)e;' % (f, ', '.join('v%d' % i for i in reversed(range(len(own)))))))
        ok('order', 'all arguments as constants', a, fun(' '.join('%s const v%d{%s};' % (t, i, TYPES[t][1]) for i, t in enumerate(own)) + ' auto e = %s(%s); (void)e;' % (f, ', '.join('v%d' % i for i in range(len(own))))))
        for i, t in enumerate(own):
            u = own[(i + 1) % len(own)]
            ok('order', 'argument %s alone' % t, a, call(val(t)))
            if full:
                for x in own:
                    if x != t:
                        ok('order', 'arguments %s, %s' % (t, x), a, call(val(t), val(x)))
            no('raw', 'a raw value in place of %s' % t, a, call(TYPES[t][1]))
            no('raw', 'a raw value in place of %s, after %s' % (t, u), a, call(val(u), TYPES[t][1]))
            no('twice', 'argument %s twice' % t, a, call(val(t), val(t)))
            no('twice', 'argument %s twice among all others' % t, a, call(*([val(x) for x in own] + [val(t)])))
            no('twice', 'argument %s twice, apart' % t, a, call(val(t), val(u), val(t)))
            no('twice', 'argument %s twice as variables' % t, a, fun('%s a{%s}; auto e = %s(a, a); (void)e;' % (t, TYPES[t][1], f)))
            no('twice', 'argument %s twice as constants' % t, a, fun('%s const a{%s}; auto e = %s(a, a); (void)e;' % (t, TYPES[t][1], f)))
            no('twice', 'argument %s once as a constant, once as a variable' % t, a, fun('%s const a{%s}; %s b{%s}; auto e = %s(a, b); (void)e;' % (t, TYPES[t][1], t, TYPES[t][1], f)))
            no('twice', 'argument %s once as a variable, once as a temporary' % t, a, fun('%s a{%s}; auto e = %s(a, %s); (void)e;' % (t, TYPES[t][1], f, val(t))))
            no('twice', 'argument %s once as a temporary, once as a constant' % t, a, fun('%s const a{%s}; auto e = %s(%s, a); (void)e;' % (t, TYPES[t][1], f, val(t))))
        for t in TYPES:
            if t not in own:
                no('foreign', 'argument %s of another call' % t, a, call(val(t)))
                no('foreign', 'argument %s of another call among valid ones' % t, a, call(val('threshold_t'), val(t), val('number_of_states_t')))
                no('foreign', 'argument %s of another call after all valid ones' % t, a, call(*([val(x) for x in own] + [val(t)])))
                no('foreign', 'argument %s of another call before a valid one' % t, a, call(val(t), val('random_seed_t')))
                no('foreign', 'constant argument %s of another call' % t, a, fun('%s const a{%s}; auto e = %s(a); (void)e;' % (t, TYPES[t][1], f)))
        for r in RAW:
            v = {'char const *': '"auto"', 'std::string': 'std::string("auto")', 'std::nullptr_t': 'nullptr'}.get(r, '%s(1)' % r if ' ' not in r else '1u')
            no('raw', 'a raw %s' % r, a, call(v))
    for e, (X, y, kind, st) in EST.items():
        P = '%s & m, %s const & X, %s const & y' % (e, X, y)
        for f in ('fit', 'partial_fit'):
            a = '%s::%s' % (e, f)
            call = lambda *xs: fun('status_message_t s = m.%s(%s); (void)s;' % (f, ', '.join(('X', 'y') + xs)), P)
            drop = lambda *xs: fun('m.%s(%s);' % (f, ', '.join(('X', 'y') + xs)), P)
            L, N = val('max_number_of_labels_t'), val('number_of_epochs_t')
            if kind == 'clc':
                for args in ((L,), (L, N), (N, L)):
                    ok('order', 'training with %d arguments' % len(args), a, call(*args))
                    no('discard', 'the status of training is dropped', a, drop(*args))
                ok('order', 'training with constants', a, fun('max_number_of_labels_t const l{3}; number_of_epochs_t const n{2}; status_message_t s = m.%s(X, y, n, l); (void)s;' % f, P))
                own = ['max_number_of_labels_t', 'number_of_epochs_t']
                for bad in (('3',), ('3', N), (L, '2u'), (L, '2'), ('2u', L)):
                    no('raw', 'training with a raw number (%s)' % ', '.join('raw' if '_t' not in b else 'typed' for b in bad), a, call(*bad))
                for bad in ((L, L), (L, N, L), (N, L, N), (L, N, N)):
                    no('twice', 'a training argument twice (%d arguments)' % len(bad), a, call(*bad))
                no('twice', 'number of epochs as a constant and as a temporary', a, fun('number_of_epochs_t const n{2}; status_message_t s = m.%s(X, y, n, %s, %s); (void)s;' % (f, L, N), P))
                base = (L,)
            else:
                for args in ((), (N,)):
                    ok('order', 'training with %d arguments' % len(args), a, call(*args))
                    no('discard', 'the status of training is dropped', a, drop(*args))
                own = ['number_of_epochs_t']
                for bad in (('2',), ('2u',), ('true',), ('2.0f',)):
                    no('raw', 'training with a raw number %s' % bad[0], a, call(*bad))
                no('twice', 'number of epochs twice', a, call(N, N))
                base = ()
            for t in TYPES:
                if t not in own:
                    no('foreign', 'training argument %s' % t, a, call(*(base + (val(t),))))
                    if kind == 'clc':
                        no('foreign', 'training argument %s before the others' % t, a, call(val(t), *base))
        Q = '%s & a, %s & b, %s const & c' % (e, e, e)
        ok('copy', 'moving an estimator', e, fun('%s d(std::move(a)); b = std::move(d);' % e, Q))
        ok('copy', 'an estimator from a state', e, fun('%s d(s); (void)d;' % e, '%s const & s' % st))
        for what, body in (('copy construction', '%s d(a); (void)d;' % e), ('copy construction from a constant', '%s d(c); (void)d;' % e), ('copy assignment', 'b = a;'), ('copy assignment from a constant', 'b = c;'),
                           ('copy initialisation', '%s d = c; (void)d;' % e), ('copying from a constant temporary', '%s d(std::move(c)); (void)d;' % e), ('a list of copies', 'std::vector<%s> v; v.push_back(c);' % e)):
            no('copy', what, e, fun(body, Q))
    return w


def traits():
    """(group, what, anchor, static_assert condition)"""
    t = []
    ns = lambda x: 'Tsetlini::' + x if x in TYPES else x
    for a in TYPES:
        for r in RAW + [TYPES[a][0]]:
            t.append(('raw', 'a raw %s converts to %s' % (r, a), a, '!std::is_convertible_v<%s, %s>' % (r, ns(a))))
            t.append(('raw', 'a raw %s can be assigned to %s' % (r, a), a, '!std::is_assignable_v<%s &, %s>' % (ns(a), r)))
        t.append(('order', '%s is made from its value' % a, a, 'std::is_constructible_v<%s, %s>' % (ns(a), TYPES[a][0])))
        for b in TYPES:
            if a == b:
                continue
            A, B = ns(a), ns(b)
            t.append(('mix', '%s is the same type as %s' % (a, b), a, '!std::is_same_v<%s, %s>' % (A, B)))
            t.append(('mix', '%s converts to %s' % (b, a), a, '!std::is_convertible_v<%s, %s>' % (B, A)))
            t.append(('mix', '%s can be assigned to %s' % (b, a), a, '!std::is_assignable_v<%s &, %s>' % (A, B)))
            for op, nm in (('==', 'eq'), ('<', 'lt'), ('+', 'plus'), ('-', 'minus'), ('+=', 'addto')):
                t.append(('mix', '%s %s %s' % (a, op, b), a, '!has_%s<%s, %s>::value' % (nm, A, B)))
    for e in EST:
        t.append(('copy', '%s is copy constructible' % e, e, '!std::is_copy_constructible_v<Tsetlini::%s>' % e))
        t.append(('copy', '%s is copy assignable' % e, e, '!std::is_copy_assignable_v<Tsetlini::%s>' % e))
        t.append(('copy', '%s cannot be moved' % e, e, 'std::is_move_constructible_v<Tsetlini::%s> && std::is_move_assignable_v<Tsetlini::%s>' % (e, e)))
        t.append(('copy', '%s can be constructed from a constant temporary of its kind' % e, e, '!std::is_constructible_v<Tsetlini::%s, Tsetlini::%s const &&>' % (e, e)))
    return t


DET = ''.join('template<typename A, typename B, typename = void> struct has_%s : std::false_type {};\n'
              'template<typename A, typename B> struct has_%s<A, B, std::void_t<decltype(std::declval<A &>() %s std::declval<B const &>())>> : std::true_type {};\n' % (n, n, op)
              for n, op in (('eq', '=='), ('lt', '<'), ('plus', '+'), ('minus', '-'), ('addto', '+=')))


def anchors():
    """where the construct in question is declared, for the report"""
    out = {}
    names = list(FACT) + list(EST) + list(TYPES)
    for h in ('tsetlini.hpp', 'tsetlini_strong_params.hpp'):
        p = os.path.join(vt.REPO, 'lib/include', h)
        try:
            lines = open(p).read().split('\n')
        except OSError:
            continue
        for i, l in enumerate(lines):
            for n in names:
                if n not in out and (re.search(r'\b%s\s*\(Args' % n, l) and not 'friend' in l or re.match(r'\s*struct %s\s*$' % n, l) or re.search(r'using %s\b' % n, l)):
                    out[n] = 'lib/include/%s:%d' % (h, i + 1)
    return out


def run(prop, tier):
    d = vt.scratch()
    pre = os.path.join(d, 'pre.hpp')
    open(pre, 'w').write(PRE)
    base = [vt.CLANG] + vt.INC + ['-w']
    vt.must(base + ['-x', 'c++-header', pre, '-o', pre + '.pch'], 'compiling the public headers')
    flags = [vt.CLANG] + vt.INC + ['-include-pch', pre + '.pch', '-Wno-everything', '-Werror=unused-result', '-fsyntax-only', '-ferror-limit=0']
    gcc = ['g++'] + vt.INC + ['-include', pre, '-Werror=unused-result', '-fsyntax-only'] if tier == 'thorough' else None
    ws = witnesses(tier)

    def one(iw):
        i, (g, what, anchor, good, src) = iw
        p = os.path.join(d, 'w%d.cpp' % i)
        open(p, 'w').write(src)
        out = []
        cs = [flags] + ([gcc] if gcc and i % 3 == 0 else [])
        for c in cs:
            r = vt.sh(c + [p])
            err = [re.sub(r'^.*?error: ', '', l) for l in r.stderr.split('\n') if re.search(r'\berror: ', l)]
            if r.returncode and not err or 'PLEASE submit' in r.stderr or 'internal compiler error' in r.stderr:
                raise vt.Broken('the compiler failed on a witness (%s): %s' % (what, r.stderr[-500:]))
            out.append((r.returncode == 0, err, len(cs)))
        return out
    res = vt.pool(list(enumerate(ws)), one)
    ts = traits()
    tsrc = os.path.join(d, 'traits.cpp')
    off = (DET.count('\n'))
    open(tsrc, 'w').write(DET + ''.join('static_assert(%s, "");\n' % c for _, _, _, c in ts))
    r = vt.sh(flags + [tsrc])
    bad = {}
    for l in r.stderr.split('\n'):
        m = re.match(r'.*traits\.cpp:(\d+):\d+: error: (.*)', l)
        if m:
            bad[int(m.group(1)) - off - 1] = m.group(2)
        elif re.search(r'\berror: ', l):
            raise vt.Broken('type relations cannot be evaluated: ' + l[:300])
    at = anchors()
    viol, groups = [], {}
    n = 0
    for (g, what, anchor, good, src), outs in zip(ws, res):
        groups[g] = groups.get(g, 0) + 1
        n += len(outs)
        where = '%s (%s)' % (anchor, at.get(anchor, at.get(anchor.split('::')[0], 'lib/include/tsetlini.hpp')))
        for compiled, err, _ in outs:
            if compiled != good:
                call = next((l.strip() for l in src.split('\n') if l.startswith('    ')), '')
                if good:
                    m = '%s is rejected: %s   [%s]' % (what, (err or ['?'])[0][:160], call[:160])
                else:
                    m = '%s compiles   [%s]' % (what, call[:200])
                v = {'where': where, 'rule': {'order': 'accepted in any order'}.get(g, 'misuse rejected: ' + g), 'msg': m}
                if v not in viol:
                    viol.append(v)
    for i, (g, what, anchor, cond) in enumerate(ts):
        groups[g] = groups.get(g, 0) + 1
        n += 1
        if i in bad:
            if 'static assertion failed' not in bad[i]:
                raise vt.Broken('type relation cannot be evaluated: %s: %s' % (what, bad[i]))
            viol.append({'where': '%s (%s)' % (anchor, at.get(anchor, 'lib/include')), 'rule': 'parameter types are distinct: ' + g, 'msg': what})
    if len(viol) > 60:
        viol = viol[:60]
    cov = {'obligations': n, 'discharged': n - len(viol), 'checker_cmd': 'python3 checks/run.py C22 %s' % tier, 'witness_programs': len(ws), 'type_relations': len(ts), 'by_kind': groups,
           'trusted_base': ['semantic analysis of clang 18 (-fsyntax-only)' + (' and g++ 13' if gcc else '')]}
    return dict(coverage=cov, violations=viol, undecided=[], instances=n, floor=500, assumptions=['discarding a result counts as rejected when -Werror=unused-result rejects it'])
