"""Lowering of the two tools (src/check.rs, src/dump.rs): Lower, plus output, files, directory walks and arguments.

What a tool writes goes to a World passed by mutable reference; what it reads of the file system and of its arguments are
fixed functions (verus/tools.rs).  Functions with a contract are called through it; any other local function is inlined.
"""
import re
import lower
from lower import Lower, Unsupported, Clo, rs_str, rs_char

PATHS = {'std::path::Path', 'std::path::PathBuf', 'std::ffi::os_str::OsStr', 'std::ffi::os_str::OsString', 'std::ffi::OsStr', 'std::ffi::OsString'}

class ToolLower(Lower):
    eff = None          # contracts of functions with a world: path -> exec name
    def tname(s, i):
        t = s.T[i]
        if t['k'] == 'adt':
            d = t['d']
            last = d.split('::')[-1]
            if d in PATHS: return 'S'
            if d.startswith('std::path::') and last in ('Path', 'PathBuf') or d.startswith('std::ffi::') and last in ('OsStr', 'OsString'): return 'S'
            if d.startswith('std::fs::') and last == 'File': return 'File'
            if d.startswith('std::fs::') and last == 'Metadata': return 'Meta'
            if d.startswith('walkdir::') and last == 'DirEntry': return 'S'
            if d.startswith('walkdir::') and last in ('WalkDir', 'IntoIter'): return 'L<Result<S, WErr>>'
            if d.startswith('walkdir::') and last == 'Error': return 'WErr'
            if d.endswith('io::error::Error') or d.endswith('io::Error'): return 'IoErr'
            if d.startswith('clap::') and last == 'ArgMatches': return 'Matches'
            if d.startswith('std::env::') and last == 'Args': return 'L<S>'
            if d == 'alloc::borrow::Cow': return s.tname(t['a'][0])
        if t['k'] == 'never' or t.get('n') == '!': return '!'
        return Lower.tname(s, i)

    # ---------------------------------------------------------------- output
    def out_args(s, e, env, m):
        """statements that write the fmt::Arguments e"""
        if m == 'spec': raise Unsupported('output in specification mode')
        parts, args = s.fmt_parts(e)
        o, vals = '', []
        for q, c in args:
            ty = s.tname(q['ty'])
            w = s.fresh('o')
            o += 'let %s = %s;\n' % (w, s.E(q, env, 'exec'))
            v = s.as_text(w, ty, c)
            if v: vals.append('x_show(%s, w)' % v)
            else: vals.append('x_out(Piece::Shown, w)')
        for p in parts:
            if isinstance(p, str): o += s.text(p)
            elif p[1] and args[p[0]][1] == 'new_display': o += 'x_out(Piece::Shown, w);\n'
            else: o += vals[p[0]] + ';\n'
        return o
    def as_text(s, w, ty, c, px='x_'):
        """what {} or {:?} makes of a value, as a text"""
        if c == 'new_debug': f = {'S': 'dbg_text', 'L<Statement>': 'dbg_tree', 'L<S>': 'dbg_names', 'NErr': 'dbg_error'}.get(ty)
        else: f = {'S': '', 'char': 'chs'}.get(ty)
        if f == 'dbg_tree' and any('fmt::Debug' in i['t'] and not i['derived'] and '::core::' in i['t'].replace('binop', 'core') for i in s.D.get('impls', ())): raise Unsupported('Debug written by hand for a type of the tree')
        if f is None: return None
        return '%s%s(%s)' % (px, f, w) if f else w
    def format(s, e, env, m):
        parts, vals = s.fmt_parts(e)
        xs = []
        for q, c in vals:
            t = s.as_text(s.E(q, env, m), s.tname(q['ty']), c, 'x_' if m == 'exec' else '')
            if t is None: raise Unsupported('format of ' + s.tname(q['ty']))
            xs.append(t)
        o = None
        for p in parts:
            if not isinstance(p, str) and p[1] and vals[p[0]][1] == 'new_display': raise Unsupported('format flags')
            t = s.S_lit(p, m) if isinstance(p, str) else xs[p[0]]
            o = t if o is None else s.xprim('cat', [o, t], m)
        return o or s.xprim('snil', [], m)
    def text(s, t): return ''.join('x_ch(%s, w);\n' % rs_char(c) for c in t)

    # ---------------------------------------------------------------- calls
    def e_call(s, e, env, m):
        d = s.callee(e)
        n = (d or '').split('::')[-1]
        if d and d.startswith('std::io::') and n in ('_print', '_eprint'):
            if n == '_eprint':
                return '()'
            return '{ %s }' % s.out_args(e['args'][0], env, m)
        if d and n == 'get_matches' and d.startswith('clap::'):
            s.clap(e)
            return 'Matches'
        if d and d.startswith('clap::') and n in ('value_of', 'is_present', 'value_of_os'):
            k = s.lit_str(e['args'][1])
            if n == 'value_of' and k == s.positional: return 'x_value_of_path(%s)' % s.E(e['args'][0], env, m)
            if n == 'is_present' and k == s.flag: return 'x_quiet(%s)' % s.E(e['args'][0], env, m)
            raise Unsupported('argument ' + k)
        if d and n == 'read_to_string' and d.startswith('alloc::io') or d == 'std::io::Read::read_to_string' or d == 'alloc::io::read::Read::read_to_string':
            if m == 'spec': raise Unsupported('read')
            if s.tname(e['args'][0]['ty']) != 'File': raise Unsupported('read')
            c = s.place(e['args'][1])
            try: f = s.place(e['args'][0])
            except Unsupported:                          # a file nobody reads again
                t, f = s.fresh(), s.E(s.strip(e['args'][0]), env, m)
                return '{ let %s = x_read(%s, %s); %s = %s.1; %s.0 }' % (t, f, c, c, t, t)
            t = s.fresh()
            return '{ let %s = x_read(%s, %s); %s = File { path: %s.path, fresh: false }; %s = %s.1; %s.0 }' % (t, f, c, f, f, c, t, t)
        if d and d.startswith('alloc::vec') and n in ('push',) and m == 'exec':
            return '{ %s }' % s.stmt(e, env)
        if d and (d.startswith('alloc::vec') and n in ('append', 'extend_from_slice') or d == 'core::iter::traits::collect::Extend::extend'):
            if m == 'spec': raise Unsupported('extend')
            v = s.place(e['args'][0])
            if n == 'append' and s.strip(e['args'][1])['k'] == 'var': raise Unsupported('append')
            return '{ let %s = %s; %s = x_cat(%s, %s); }' % ((lambda t: (t, s.list_of_or_vec(e['args'][1], env, m), v, v, t))(s.fresh()))
        if d == 'std::process::exit':
            if m == 'spec' or s.goal is None: raise Unsupported('exit')
            return '{ proof { assert(%s); } x_exit(w); loop invariant false decreases 0int { } }' % s.goal
        return Lower.e_call(s, e, env, m)

    def list_of_or_vec(s, e, env, m):
        try: return s.list_of(e, env, m)
        except Unsupported:
            if s.tname(s.strip(e)['ty']).startswith('L<'): return s.E(e, env, m)
            raise

    positional = flag = goal = None
    def clap(s, e):
        """the arguments declared: one positional, one flag -q / --quiet"""
        x = s.strip(e['args'][0])
        chain = []
        while x['k'] == 'call':
            chain.append((s.callee(x), x))
            if not x['args'] or s.strip(x['args'][0])['k'] != 'call': break
            x = s.strip(x['args'][0])
        pos, flag = [], []
        for d, x in chain:
            n = d.split('::')[-1]
            if not d.startswith('clap::app'): raise Unsupported('clap: ' + d)
            if n in ('new', 'version', 'author', 'about', 'long_about'): continue
            if n != 'arg': raise Unsupported('clap: ' + n)
            a = s.strip(x['args'][1])
            p = {}
            while a['k'] == 'call':
                k = s.callee(a).split('::')[-1]
                lit = lambda q: s.lit_str(q)
                if k == 'with_name': p['name'] = lit(a['args'][0]); break
                if k in ('short', 'long'): p[k] = lit(a['args'][1])
                elif k == 'index': p['index'] = s.strip(a['args'][1])['v']
                elif k in ('help', 'value_name', 'long_help'): pass
                else: raise Unsupported('clap: ' + k)
                a = s.strip(a['args'][0])
            if p.get('short') == 'q' and p.get('long') == 'quiet' and 'index' not in p: flag.append(p['name'])
            elif str(p.get('index')) == '1' and 'short' not in p and 'long' not in p: pos.append(p['name'])
            else: raise Unsupported('clap: argument %s' % p)
        if len(pos) != 1 or len(flag) != 1 or pos == flag: raise Unsupported('clap: arguments')
        s.positional, s.flag = pos[0], flag[0]

    def call_path(s, d, targs, args, e, env, m):
        n = d.split('::')[-1]
        short = d[len(s.crate) + 2:] if d.startswith(s.crate + '::') else None
        if short is not None:
            if short in (s.eff or {}):
                if m == 'spec': raise Unsupported('effect in specification mode')
                return '%s(%s)' % (s.eff[short], ', '.join(args + ['w']))
            if short.startswith('ast::') and short not in s.contracts and '{constructor' not in n: raise Unsupported('call of ' + short)
            return Lower.call_path(s, d, targs, args, e, env, m)
        if m == 'exec':
            if d.startswith('std::fs::'):
                if n == 'open' and e and s.tname(e['ty']) == 'Result<File, IoErr>': return 'x_open(%s)' % args[0]
                if n == 'read_to_string': return 'x_read_file(%s)' % args[0]
                if n == 'metadata' and e and s.tname(e['ty']) == 'Result<Meta, IoErr>' and len(args) == 1 and s.tname(e['args'][0]['ty']) == 'S': return 'x_metadata(%s)' % args[0]
                if n == 'is_dir' and s.tname(e['args'][0]['ty']) == 'Meta': return 'x_is_dir(%s.path)' % args[0]
                if n == 'is_file' and s.tname(e['args'][0]['ty']) == 'Meta': return 'x_is_file(%s.path)' % args[0]
            if d.startswith('std::path::'):
                if n == 'is_dir': return 'x_is_dir(%s)' % args[0]
                if n == 'is_file': return 'x_is_file(%s)' % args[0]
                if n == 'exists': return 'x_exists(%s)' % args[0]
                if n == 'extension': return 'x_ext(%s)' % args[0]
                if n == 'to_str': return 'x_to_str(%s)' % args[0]
                if n in ('to_string_lossy',): return 'x_lossy(%s)' % args[0]
                if n in ('new', 'to_path_buf', 'as_path', 'into_os_string', 'as_os_str'): return args[0]
                if n == 'metadata': return 'x_metadata(%s)' % args[0]
            if d.startswith('std::ffi::'):
                if n == 'to_str': return 'x_to_str(%s)' % args[0]
                if n == 'to_string_lossy': return 'x_lossy(%s)' % args[0]
                if n in ('new', 'as_os_str', 'to_os_string'): return args[0]
            if d.startswith('walkdir::'):
                if n == 'new': return 'x_walk(%s)' % args[0]
                if n in ('path', 'into_path'): return args[0]
                if n in ('sort_by', 'sort_by_key', 'sort_by_file_name', 'contents_first', 'max_open'): return 'x_walk_order(%s)' % args[0]
                if n in ('max_depth', 'min_depth', 'same_file_system', 'follow_links'): return 'x_walk_some(%s)' % args[0]
            if d == 'std::env::args': return 'x_args()'
            if d.startswith('core::slice::') and n == 'get' and s.tname(e['args'][1]['ty']) == 'usize': return 'x_get(%s, %s)' % tuple(args)
        else:
            if d.startswith('std::path::') and n in ('new', 'as_path') or d.startswith('std::ffi::') and n == 'new': return args[0]
        return Lower.call_path(s, d, targs, args, e, env, m)

    # ---------------------------------------------------------------- iterators
    def ghost_fn(s, f, env, nargs=1):
        x = f.e
        if x['k'] == 'zst':
            t = s.T[x['ty']]
            b = s.bodies.get(t['d'])
            if not b: raise Unsupported('function value')
            vs = [s.fresh('g') for _ in b['params']]
            return '|%s| %s' % (', '.join('%s: %s' % (v, s.tname(p['ty'])) for v, p in zip(vs, b['params'])), s.apply(f, vs, env, 'spec'))
        return Lower.ghost_fn(s, f, env, nargs)

    def list_of(s, e, env, m):
        x = s.strip(e)
        if x['k'] == 'call':
            d = s.callee(x)
            n = (d or '').split('::')[-1]
            if d == 'std::env::args': return 'x_args()'
            if d and d.startswith('core::iter::traits::iterator::Iterator::') and n in ('flat_map', 'map', 'filter', 'filter_map', 'flatten'):
                l = s.list_of(x['args'][0], env, m)
                if n == 'flatten':
                    raise Unsupported('flatten')
                f = s.clo_of(x['args'][1], env)
                if not f: raise Unsupported(n)
                g = s.ghost_fn(f, env)
                if n == 'flat_map': pass
                else:
                    a, b = re.match(r'\|(.*?)\| (.*)$', g, re.S).groups()
                    v = a.split(':')[0]
                    g = '|%s| %s' % (a, {'map': 'v1(%s)' % b, 'filter': 'if %s { v1(%s) } else { vnil() }' % (b, v), 'filter_map': 'opt_l(%s)' % b}[n])
                if n == 'flat_map' and 'Option<' in g.split('|')[0]: raise Unsupported('flat_map')
                return 'x_flat_l(%s, Ghost(%s))' % (l, g) if m == 'exec' else 'flat_l(%s, %s)' % (l, g)
        return Lower.list_of(s, e, env, m)

    def iter_op(s, d, e, env, m):
        n = d.split('::')[-1]
        if n == 'nth' and m == 'exec': return 'x_get(%s, %s)' % (s.list_of(e['args'][0], env, m), s.E(e['args'][1], env, m))
        return Lower.iter_op(s, d, e, env, m)

    # ---------------------------------------------------------------- loops, ? and continue
    def e_continue(s, e, env, m):
        if m == 'spec': raise Unsupported('continue')
        return 'continue'

    def e_match(s, e, env, m):
        if m == 'exec':
            x = s.strip(e['s'])
            if x['k'] == 'call' and s.callee(x) == 'core::ops::try_trait::Try::branch': return s.question(e, env)
        if m == 'exec':
            lp = s.for_loop(e)
            if lp: return s.loop_text(lp, env)
        return Lower.e_match(s, e, env, m)

    def question(s, e, env):
        if s.depth: raise Unsupported('? in an inlined function')
        x = s.strip(e['s'])
        if x['k'] != 'call' or s.callee(x) != 'core::ops::try_trait::Try::branch': raise Unsupported('?')
        t = s.tname(x['args'][0]['ty'])
        v, z = s.fresh(), s.fresh()
        a = s.E(x['args'][0], env, 'exec')
        if t.startswith('Option<'): return 'match %s { Some(%s) => %s, None => { return None } }' % (a, v, v)
        if t.startswith('Result<'):
            if t.rsplit(', ', 1)[1] != s.ret.rsplit(', ', 1)[-1]: raise Unsupported('? with a conversion')
            return 'match %s { Ok(%s) => %s, Err(%s) => { return Err(%s) } }' % (a, v, v, z, z)
        raise Unsupported('?')

    def loop_text(s, lp, env):
        """for loop with an invariant from the property: about what is written (a directory walk) or about one list of names"""
        sc, p, body = lp
        pre = []          # lazy adapters: applied to each element in turn
        x = sc
        while True:
            y = s.strip(x)
            d = s.callee(y) if y['k'] == 'call' else None
            n = (d or '').split('::')[-1]
            if d == 'core::iter::traits::collect::IntoIterator::into_iter': x = y['args'][0]; continue
            if d and d.startswith('core::iter::traits::iterator::Iterator::') and n in ('filter', 'map', 'filter_map', 'flatten') and s.elem_walk(y):
                pre.insert(0, (n, s.clo_of(y['args'][1], env) if len(y['args']) > 1 else None, s.strip(y['args'][0])))
                x = y['args'][0]
                continue
            break
        y = s.strip(x)
        try: t = s.tname(y['ty'])
        except Unsupported: t = ''
        if pre or t == 'L<Result<S, WErr>>':
            l = s.E(x, env, 'exec')
            et = 'Result<S, WErr>'
        else:
            if pre: raise Unsupported('iterator')
            l = s.list_of(sc, env, 'exec')
            et = s.tname(p['ty'])
        s.loops += 1
        k = s.loops
        asg = [v for v in s.assigned(body) if s.declared_outside(v, body)]
        inv = ''
        if et == 'Result<S, WErr>':
            inv = 'w.out@ == walk_upto(l_%d@, k_%d as nat, %s, old(w).out@), readable_below(%s), listing(l_%d, %s)' % (k, k, s.wquiet, s.wpath, k, s.wpath)
        elif et in ('ExportSet', 'Statement'):
            accs = [v for v in asg if s.tname(s.vt['v_%d' % v]) == 'L<S>']
            if len(asg) != 1 or len(accs) != 1: raise Unsupported('loop')
            inv = 'v_%d@ == a0_%d@ + %s(l_%d@, k_%d as nat)' % (accs[0], k, 'exps_upto' if et == 'ExportSet' else 'stmts_upto', k, k)
        else: raise Unsupported('loop over ' + et)
        o = '{\nlet l_%d = %s;\n' % (k, l)
        if et != 'Result<S, WErr>': o += 'let ghost a0_%d = v_%d;\n' % (k, asg[0])
        o += 'let mut k_%d: usize = 0;\nlet n_%d: usize = x_vec_len(l_%d);\n' % (k, k, k)
        o += 'while k_%d < n_%d\n invariant k_%d <= n_%d, n_%d == l_%d@.len(), %s,\n decreases n_%d - k_%d\n{\n' % (k, k, k, k, k, k, inv, k, k)
        cur = s.fresh('el')
        o += 'let %s = x_index(l_%d, k_%d);\nk_%d = k_%d + 1;\n' % (cur, k, k, k, k)
        for n, f, src in pre:
            if n == 'flatten':
                nx = s.fresh('el')
                o += 'let %s = match %s { Ok(z) => z, Err(_) => { continue; } };\n' % (nx, cur)
                cur = nx
                continue
            if f is None: raise Unsupported(n)
            if n == 'filter':
                o += 'let q_%s = %s;\nif !q_%s { continue; }\n' % (cur, s.apply(f, [cur], env, 'exec'), cur)
            else:
                nx = s.fresh('el')
                r = s.apply(f, [cur], env, 'exec')
                o += 'let %s = %s;\n' % (nx, r) if n == 'map' else 'let %s = match %s { Some(z) => z, None => { continue; } };\n' % (nx, r)
                cur = nx
        env2 = dict(env)
        if p['k'] == 'bind': env2.pop(p['v'], None)
        o += 'let %s = %s;\n' % (s.pat(p), cur)
        b = s.stmt(body, env2)
        o += b + '\n}\n}'
        return o

    def elem_walk(s, e):
        """the chain starts at a directory walk"""
        x = s.strip(e)
        while x['k'] == 'call':
            try:
                if s.tname(x['ty']) == 'L<Result<S, WErr>>': return True
            except Unsupported: pass
            if not x['args']: return False
            x = s.strip(x['args'][0])
        try: return s.tname(x['ty']) == 'L<Result<S, WErr>>'
        except Unsupported: return False

    wpath = wquiet = 'undefined'
    def fn(s, path, goal=None):
        b = s.bodies[s.crate + '::' + path]
        s.goal = goal
        s.ret = s.tname(b['ret'])
        ps = [p['p'] for p in b['params']]
        if all(p['k'] == 'bind' for p in ps) and [s.tname(p['ty']) for p in ps] == ['S', 'bool']:
            s.wpath, s.wquiet = 'v_%d' % ps[0]['v'], 'v_%d' % ps[1]['v']
        return s.function(path, True)

# the functions under contract: path -> (crate, parameter types, text of the contract with {0}, {1} for the parameters, world?)
CONTRACTS = {
    'C22': [
        ('get_export_set_imports', ['S:ExportSet'], 'f_exp', 'ref_exp', '(r: L<S>) ensures r == ref_exp({0})', False),
        ('get_imported_names', ['S:L<Statement>'], 'f_names', 'ref_names', '(r: L<S>) ensures r == ref_names({0})', False),
        ('main', [], 't_main', None, ' requires check_pre() ensures checked(old(w).out@, final(w).out@)', True),
    ],
    'C23': [
        ('dump_file', ['S', 'bool'], 't_dump_file', None, ' requires fs_text({0}) is Some ensures final(w).out@ == dump_one({0}, {1}, old(w).out@)', True),
        ('dump_directory', ['S', 'bool'], 't_dump_directory', None, ' requires readable_below({0}) ensures walked({0}, {1}, old(w).out@, final(w).out@)', True),
        ('main', [], 't_main', None, ' requires dump_pre() ensures dumped(old(w).out@, final(w).out@)', True),
    ],
}
