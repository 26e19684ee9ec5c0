"""Command line programs: their options (A01), the settings of symbolicli (A02), the commands of symbolicator (A03)."""
import re
from engine.check import *
from checks.util import *
from checks.cleanup import E_IO


# ----------------------------------------------------------------------- A01
def entries(attrs, names=('arg', 'clap', 'command')):
    """(name, value text|None) of the clap attributes of an item."""
    out = []
    for a in attrs:
        m = re.match(r'^(\w+)\s*\((.*)\)$', a.strip(), re.S)
        if not m or m.group(1) not in names:
            if a.strip().startswith('cfg_attr') and any(n in a for n in names):
                out.append(('cfg_attr', a))
            continue
        depth, cur, q, parts = 0, '', False, []
        for ch in m.group(2):
            if ch == '"':
                q = not q
            if not q and ch in '([{':
                depth += 1
            if not q and ch in ')]}':
                depth -= 1
            if ch == ',' and not depth and not q:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        for p in parts + [cur]:
            p = p.strip()
            if not p:
                continue
            m2 = re.match(r'^(\w+)\s*(?:=\s*(.*)|\((.*)\))?$', p, re.S)
            if not m2:
                out.append((p, None))
                continue
            v = m2.group(2) if m2.group(2) is not None else m2.group(3)
            out.append((m2.group(1), v.strip() if v is not None else None))
    return out


def lit(v):
    return v.strip().strip('"').strip("'") if v is not None else None


def head(ty):
    """The last segment of a type, with that of its first argument."""
    p = ty.get('p') if isinstance(ty, dict) else None
    if not p:
        return None, None
    name, args = p['segs'][-1]
    return name, (head(args[0])[0] if args and isinstance(args[0], dict) else None)


LOOK = {'value_name', 'help', 'long_help', 'hide', 'help_heading', 'value_enum', 'display_order', 'next_line_help', 'verbatim_doc_comment', 'value_hint', 'hide_default_value', 'hide_possible_values'}
ABOUT = {'version', 'long_version', 'about', 'long_about', 'author', 'bin_name', 'name', 'display_name', 'after_help', 'before_help', 'max_term_width', 'term_width', 'next_help_heading', 'styles', 'color', 'subcommand'}
COUNT = re.compile(r'(^|::\s*)Count$')


def option(f):
    """What the attributes of a field say about its option: a dict, or a complaint."""
    e = entries(f['attrs'])
    d = dict(e)
    if 'subcommand' in d:
        return None
    name = f['name'].replace('r#', '')
    o = {'long': None, 'short': None, 'default': None, 'not with': (), 'aliases': (), 'global': False}
    ty, inner = head(f['ty'])
    if 'long' in d:
        o['long'] = lit(d['long']) if d['long'] is not None else name.replace('_', '-')
    if 'short' in d:
        o['short'] = lit(d['short']) if d['short'] is not None else (o['long'] or name)[0] if 'name' in d or 'id' in d else name[0] if d['short'] is None else lit(d['short'])
    if 'default_value' in d or 'default_value_t' in d:
        o['default'] = lit(d.get('default_value') or d.get('default_value_t') or '')
    act = d.get('action')
    if act and COUNT.search(act.replace(' ', '')):
        o['takes'] = 'count'
    elif act and re.search(r'SetTrue$', act.replace(' ', '')) or not act and ty == 'bool':
        o['takes'] = 'flag'
    elif act and not re.search(r'(Append|Set)$', act.replace(' ', '')):
        return f'has the action {act}'
    elif ty == 'Vec':
        o['takes'] = 'many'
    elif ty == 'Option' or o['default'] is not None:
        o['takes'] = 'optional'
    else:
        o['takes'] = 'required'
    for k, v in e:
        if k in ('conflicts_with', 'conflicts_with_all'):
            o['not with'] += tuple(x.strip(' "[]&').replace('-', '_') for x in v.split(',') if x.strip(' "[]&'))
        elif k in ('alias', 'visible_alias', 'short_alias', 'aliases', 'visible_aliases'):
            pass            # further names
        elif k == 'global':
            o['global'] = lit(v or 'true') == 'true'
        elif k == 'required':
            want = lit(v or 'true') == 'true'
            if want != (o['takes'] == 'required'):
                o['takes'] = 'required ' + o['takes'] if want else 'optional'
        elif k in ('long', 'short', 'default_value', 'default_value_t', 'action', 'id', 'name') or k in LOOK:
            pass
        elif k == 'index':
            o['index'] = int(lit(v))
        elif k == 'value_parser':
            t = re.search(r'value_parser\s*!\s*\(\s*(\w+)\s*\)', v or '')
            if not t or t.group(1) != (inner if ty in ('Option', 'Vec') else ty):
                return f'is parsed by {v}'
        else:
            return f'has the setting {k}' + (f' = {v}' if v is not None else '')
    return o


def opt(long, short=None, takes='optional', **kw):
    return {'long': long, 'short': short, 'default': None, 'not with': (), 'global': False, 'takes': takes, **kw}


POS = {'long': None, 'short': None}
OPTIONS = {
    'symsorter::app::Cli': {
        'output': opt('output', 'o', 'required'), 'prefix': opt('prefix', 'p'), 'bundle_id': opt('bundle-id', 'b'), 'multiple_bundles': opt('multiple-bundles', None, 'flag', **{'not with': ('bundle_id',)}),
        'with_sources': opt('with-sources', None, 'flag'), 'compression_level': opt('compress', 'z', 'count'), 'ignore_errors': opt('ignore-errors', 'I', 'flag'), 'quiet': opt('quiet', 'q', 'flag'),
        'input': opt(None, None, 'many')},
    'wasm_split::Cli': {
        'input': opt(None, None, 'required'), 'out': opt('out', 'o'), 'debug_out': opt('debug-out', 'd'), 'strip': opt('strip', None, 'flag'), 'strip_names': opt('strip-names', None, 'flag'),
        'quiet': opt('quiet', 'q', 'flag'), 'build_id': opt('build-id'), 'external_dwarf_url': opt('external-dwarf-url')},
    'symbolicator::cli::Cli': {'config': opt('config', 'c', 'optional', **{'global': True})},
    'symbolicator::cli::Command::Cleanup': {'dry_run': opt('dry-run', None, 'flag')},
    'symbolicli::settings::Cli': {
        'event': opt(None, None, 'required'), 'org': opt('org', 'o'), 'project': opt('project', 'p'), 'url': opt('url'), 'auth_token': opt('auth-token'), 'format': opt('format', default='json'),
        'offline': opt('offline', None, 'flag'), 'log_level': opt('log-level', default='info'), 'no_scrape': opt('no-scrape', None, 'flag'), 'symbols': opt('symbols')},
}


def a01(c):
    for path, want in OPTIONS.items():
        if path.endswith('::Cleanup'):
            d = c.w.type(path.rsplit('::', 1)[0])
            fields = next((v['fields'] for v in d.node['variants'] if v['name'] == 'Cleanup'), []) if d else []
        else:
            d = c.w.type(path)
            fields = d.node['fields'] if d else []
        c.rule(f'options of {path}', d is not None, f'{path} not found', path)
        if d is None:
            continue
        site = path
        for k, v in entries(d.node['attrs'], ('command', 'clap', 'arg')):
            c.rule(f'{path}: settings of the command', k in ABOUT, f'the command of {path} has the setting {k}' + (f' = {v}' if v else ''), site)
        seen = {}
        for f in fields:
            o = option(f)
            if o is None:
                continue
            n = f['name'].replace('r#', '')
            if isinstance(o, str):
                c.rule(f'{path}: {n}', False, f'the option {n} {o}', site)
                continue
            seen[n] = o
            w = want.get(n)
            if w is None:
                c.rule(f'{path}: {n}', o['takes'] != 'required', f'the option {n} is required, but not documented', site)
                continue
            for k in ('long', 'short', 'takes', 'default', 'global'):
                c.rule(f'{path}: {n}: {k}', o.get(k) == w.get(k), f'the option {n}: {k} is {o.get(k)!r}, documented is {w.get(k)!r}', site)
        for n in want:
            c.rule(f'{path}: {n}', n in seen, f'the option {n} is missing', site)
        pairs = lambda t: {frozenset((n, x)) for n, o in t.items() for x in o['not with']}
        c.rule(f'{path}: conflicts', pairs(seen) == pairs(want), f'options exclude each other: {sorted(map(sorted, pairs(seen)))}, documented are {sorted(map(sorted, pairs(want)))}', site)
        used = [x for o in seen.values() for x in ((('long', o['long']),) if o['long'] else ()) + ((('short', o['short']),) if o['short'] else ())]
        c.rule(f'{path}: distinct', len(set(used)) == len(used), f'two options share a name: {sorted(used)}', site)
        pos = [(n, o) for n, o in seen.items() if not o['long'] and not o['short']]
        c.rule(f'{path}: positional', len(pos) <= 1 and all(o.get('index', 1) == 1 for _, o in pos), f'several positional arguments: {[n for n, _ in pos]}', site)
    d = c.w.type('symbolicator::cli::Command')
    from engine.serde import rename
    names = {}
    for v in d.node['variants']:
        e = dict(entries(v['attrs']))
        names[v['name']] = lit(e['name']) if e.get('name') else re.sub(r'(?<!^)([A-Z])', r'-\1', v['name']).lower()
    c.rule('commands of symbolicator', names == {'Run': 'run', 'Cleanup': 'cleanup'}, f'the commands are {names}', 'symbolicator::cli::Command')
    d = c.w.type('symbolicli::settings::OutputFormat')
    names = {}
    for v in d.node['variants']:
        e = dict(entries(v['attrs'], ('value', 'clap')))
        names[v['name']] = lit(e['name']) if e.get('name') else re.sub(r'(?<!^)([A-Z])', r'-\1', v['name']).lower()
        if set(e) - {'name', 'help', 'alias', 'aliases'}:
            names[v['name']] = str(e)
    c.rule('output formats of symbolicli', names == {'Json': 'json', 'Pretty': 'pretty', 'Compact': 'compact'}, f'the formats are {names}', 'symbolicli::settings::OutputFormat')
    c.floor('options', len([r for r in OPTIONS.values() for _ in r]), 25)


# ----------------------------------------------------------------------- A02
CLI = 'symbolicli::settings::'
RC, TOML = '.symboliclirc', 'symbolicli.toml'
OPT = {'org', 'project', 'url', 'auth_token'}


def here(recv):
    """The place of a literal absolute path, and the path."""
    r = recv
    while isinstance(r, Ref) and isinstance(r.get(), Ref):
        r = r.get()
    v = deref(recv)
    s = v.lit() if isinstance(v, Str) else None
    return (r, s) if s is not None and s.startswith('/') else (None, None)


def change(f):
    def g(it, recv, a):
        r, s = here(recv)
        if r is None:
            return NotImplemented
        x = it.ctx.sstr(deref(a[0])).lit() if a else None
        v, res = f(s, x)
        r.set(Str(v) if v else Str('/'))
        return res
    return g


def up(s):
    return s.rsplit('/', 1)[0] or '/'


def read(it, recv):
    r, s = here(recv)
    return it.state(s) != 'missing' if s is not None else NotImplemented


PATHS = {'push': change(lambda s, x: (s.rstrip('/') + '/' + x if not x.startswith('/') else x, UNIT)),
         'pop': change(lambda s, x: (up(s), s != '/')),
         'set_file_name': change(lambda s, x: (up(s).rstrip('/') + '/' + x, UNIT)),
         'exists': lambda it, r, a: read(it, r), 'is_file': lambda it, r, a: read(it, r),
         'try_exists': lambda it, r, a: ok(read(it, r)) if here(r)[1] else NotImplemented}


def config_files(it, cwd, home):
    """The project's and the user's configuration file, with their states."""
    d, project = cwd, None
    while True:
        for n in (RC, TOML):
            p = d.rstrip('/') + '/' + n
            if it.state(p) != 'missing':
                project = p
                break
        if project or d == '/':
            break
        d = up(d)
    user = home + '/' + RC
    return (project if project != user else None), user


def settings(c, name, cwd, home, states, layered, floor):
    files = [d.rstrip('/') + '/' + n for d in (cwd, up(cwd), up(up(cwd)), home) for n in (RC, TOML)]

    def state(it, p):
        if p not in files or p == home + '/' + TOML and not cwd.startswith(home):
            return 'missing'
        return it.ctx.choose(('file', p), states)

    def setup(it):
        it.state = lambda p: state(it, p)
        it.loaded = {}

    def value(it, who, n):
        if n in layered:
            return Term(f'{n} {who}', (), Ty('Option', T_STR))
        return some(Str((Term(f'{n} {who}', (), T_STR),))) if who == 'of the command line' else none()

    def parsed(it, a):
        d = {n: value(it, 'of the command line', n) for n in OPT}
        d.update(event=Str((Term('event', (), T_STR),)), format=Term('format', (), Ty(CLI + 'OutputFormat')), offline=Term('offline', (), T_BOOL), log_level=Term('level', (), Ty('LevelFilter')),
                 no_scrape=Term('no_scrape', (), T_BOOL), symbols=Term('symbols', (), Ty('Option', T_STR)))
        it.command = Struct(CLI + 'Cli', dict(d))
        it.env = 'auth_token' in layered and it.ctx.choose(('token in the environment',), [False, True])
        return Struct(CLI + 'Cli', d)

    def contents(it, a):
        p = it.ctx.sstr(deref(a[0])).lit()
        s = it.state(p)
        it.loaded[p] = s
        if s == 'missing':
            return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::NotFound', (), Ty('ErrorKind')), Str('missing')), E_IO)])
        if s == 'unreadable':
            return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('unreadable')), E_IO)])
        return ok(Str((Term('text', (p,), T_STR),)))

    def toml(it, a):
        p = it.ctx.sstr(deref(a[0])).parts[0].args[0]
        if it.state(p) == 'broken':
            return err(Term('broken', (p,), Ty('toml::Error')))
        d = {n: value(it, 'in ' + p, n) if n in layered else none() for n in OPT}
        d['cache_dir'] = Term('cache_dir in ' + p, (), Ty('Option', T_STR)) if 'cache_dir' in layered else none()
        d['sources'] = Vec([Term('source in ' + p, (), Ty('symbolicator_sources::sources::SourceConfig'))])
        return ok(Struct(CLI + 'ConfigFile', d))

    def env(it, a):
        if it.ctx.sstr(deref(a[0])).lit() == 'SENTRY_AUTH_TOKEN' and it.env:
            return ok(Str('token of the environment'))
        return err(Term('no variable', (), Ty('VarError')))

    def mkdir(it, a):
        it.made = a[0]
        return ok() if it.ctx.choose(('cache directory can be made',), [True, False]) else Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('mkdir')), E_IO)])

    def first(it, n, project, user):
        """The value of an option which counts, or None."""
        who = [('of the command line',)] + ([('env',)] if n == 'auth_token' else []) + ([('in ' + project,)] if project else []) + [('in ' + user,)]
        if n == 'cache_dir':
            who = who[1:]
        for (w,) in who:
            if w == 'env':
                if it.env:
                    return Str('token of the environment')
                continue
            if w == 'in ' + user and it.state(user) != 'good':
                continue
            if n not in layered and w != 'of the command line':
                continue
            o = it.force(value(it, w, n)) if n != 'cache_dir' else it.force(Term('cache_dir ' + w, (), Ty('Option', T_STR)))
            if o.variant == 'Some':
                return o.fields[0]
        return None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res = it.force(out.value)
        project, user = config_files(it, cwd, home)
        broken = [p for p in (project, user) if p and it.state(p) in ('broken', 'unreadable')]
        if broken:
            return ('files: broken', f'{broken[0]} is {it.state(broken[0])}, but is ignored') if res.variant == 'Ok' else None
        offline = it.ctx.truth(it.field(it.command, 'offline'))
        v = {n: first(it, n, project, user) for n in ('auth_token', 'url', 'org', 'project', 'cache_dir')} if not offline else {'cache_dir': first(it, 'cache_dir', project, user)}
        lack = [n for n in ('auth_token', 'org', 'project') if v.get(n) is None] if not offline else []
        if lack:
            return ('settings: missing', f'without {lack[0]}, the command runs online') if res.variant == 'Ok' else None
        from_url = None
        if not offline:
            from_url = it.force(it.ext_call(['Url', 'parse'], [it.std.temp_ref(v['url'] if v['url'] is not None else Str('https://sentry.io/'))]))
            if from_url.variant == 'Err':
                return ('settings: url', 'an invalid url is accepted') if res.variant == 'Ok' else None
            base = it.force(it.method(it.std.temp_ref(from_url.fields[0]), 'join', [Str('/api/0/')]))
            if base.variant == 'Err':
                return ('settings: url', 'an url which is no base is accepted') if res.variant == 'Ok' else None
        if v['cache_dir'] is not None and it.ctx.known(('cache directory can be made',)) is False:
            return ('settings: cache_dir', 'a cache directory that cannot be created is ignored') if res.variant == 'Ok' else None
        if res.variant != 'Ok':
            return 'settings: error', f'valid settings fail with {show(res.fields[0])}; the files are {project} and {user}'
        s, bad = res.fields[0], []
        same = lambda x, y: it.ctx.norm(it.freeze(deref(x))) == it.ctx.norm(it.freeze(deref(y)))
        mode = it.force(it.field(s, 'mode'))
        if (mode.variant == 'Offline') != offline:
            bad.append(('mode', f'with offline = {offline} the mode is {mode.variant}'))
        elif not offline:
            for n in ('auth_token', 'org', 'project'):
                if not same(mode.fields[n], v[n]):
                    bad.append((f'precedence: {n}', f'{n} is {show(mode.fields[n])}, expected {show(v[n])}'))
            if not same(mode.fields['base_url'], base.fields[0]):
                bad.append(('precedence: url', f'the server is {show(mode.fields["base_url"])}, expected {show(base.fields[0])}'))
            if it.ctx.truth(mode.fields['scraping_enabled']) == it.ctx.truth(it.field(it.command, 'no_scrape')):
                bad.append(('scraping', f'with no_scrape = {show(it.field(it.command, "no_scrape"))} scraping is {show(mode.fields["scraping_enabled"])}'))
        for n, m in (('event_id', 'event'), ('output_format', 'format'), ('log_level', 'log_level'), ('symbols', 'symbols')):
            if not same(it.field(s, n), it.field(it.command, m)):
                bad.append((n, f'the option {m} is {show(it.field(it.command, m))}, used is {show(it.field(s, n))}'))
        conf = it.field(s, 'symbolicator_config')
        got = fopt(it, conf, 'cache_dir')
        if (got is None) != (v['cache_dir'] is None) or got is not None and not same(got, v['cache_dir']):
            bad.append(('precedence: cache_dir', f'the cache directory is {show(got)}, expected {show(v["cache_dir"])}'))
        want = [f'source in {p}' for p in (project, user) if p and it.state(p) == 'good']
        srcs = [deref(x) for x in items(it, it.field(conf, 'sources'))]
        srcs = [x.op if isinstance(x, Term) else show(x) for x in srcs]
        if sorted(srcs) != sorted(want):
            bad.append(('sources', f'the sources are {srcs}, configured are {want}'))
        if not it.ctx.truth(it.field(conf, 'connect_to_reserved_ips')):
            bad.append(('reserved', 'local symbol servers cannot be reached'))
        return bad
    c.product(name, CLI + 'Settings::get', spec, setup=setup, floor=floor, k=8, models={
        'Cli::parse': parsed, 'dirs::home_dir': lambda it, a: some(Str(home)), 'home::home_dir': lambda it, a: some(Str(home)), 'env::current_dir': lambda it, a: ok(Str(cwd)),
        'fs::read_to_string': contents, 'toml::from_str': toml, 'env::var': env, 'fs::create_dir_all': mkdir, 'Path::exists': lambda it, a: read(it, a[0])},
        mmodels=PATHS, opaque={'is_docker': lambda it, a: False})


def a02(c):
    both = ('good', 'missing')
    settings(c, 'files of a project', '/work/app', '/home/me', both, ('org',), 40)
    settings(c, 'files of a project below the home directory', '/home/me/app', '/home/me', both, ('org',), 20)
    settings(c, 'broken files', '/work/app', '/home/me', ('good', 'missing', 'broken', 'unreadable'), (), 20)
    for n in ('url', 'auth_token', 'project', 'cache_dir'):
        settings(c, f'precedence of {n}', '/app', '/home/me', ('good',), (n,), 8)
    from engine.serde import struct_schema

    def run(it, f, a):
        it.es = struct_schema(it, Ty(CLI + 'ConfigFile'))
        return UNIT

    def spec(it, a, out):
        got = {n: e for e in it.es for n in e.names}
        bad = [('setting', f'the setting {n} is not read') for n in ('org', 'project', 'url', 'auth_token', 'cache_dir', 'sources') if n not in got]
        return bad + [('required', f'the setting {n} cannot be left out') for n, e in got.items() if e.required]
    c.product('settings of a file', None, spec, run=run, floor=1)


# ----------------------------------------------------------------------- A03
def a03(c):
    TAGS = {'hostname_tag': 'host', 'environment_tag': 'environment', 'platform_tag': 'platform'}

    def parsed(it, a):
        cmd = it.ctx.choose(('command',), ['Run', 'Cleanup'])
        it.dry = it.ctx.choose(('dry run',), [True, False]) if cmd == 'Cleanup' else None
        it.path = Term('configuration path', (), Ty('Option', T_STR))
        return Struct('symbolicator::cli::Cli', {'config': it.path, 'command': Enum('symbolicator::cli::Command', cmd, [] if cmd == 'Run' else {'dry_run': it.dry})})

    def load(it, a):
        it.read = a[0]
        if not it.ctx.choose(('the configuration is valid',), [True, False]):
            return err(Term('invalid configuration', (), Ty('anyhow')))
        d = {n: Term('configured ' + n, (), None) for n in ('cache_dir', 'bind', 'bind_https', 'logging', 'server_config', 'caches', 'symstore_proxy', 'sources', 'timeouts', 'limits')}
        m = {n: some(Str(v + ' tag')) if it.ctx.choose((n,), [False, True]) else none() for n, v in TAGS.items()}
        m['custom_tags'] = Map([[Str('custom'), Str('value')]])
        m['prefix'] = Str('prefix')
        it.statsd = it.ctx.choose(('statsd',), [False, True])
        m['statsd'] = some(Str('statsd host')) if it.statsd else none()
        it.tags = m
        it.conf = Struct('symbolicator_service::config::Config', {**d, 'sentry_dsn': none(), 'traces_sample_rate': Term('rate', (), Ty('f32')), 'propagate_traces': Term('propagate', (), T_BOOL), '_crash_db': none(),
                                                                 'cache_dir': none(), 'metrics': Struct('symbolicator_service::config::Metrics', dict(m))})
        return ok(it.clone(it.conf))

    def known(it, what, good, bad):
        it.values[what] = it.ctx.choose((what + ' is known',), [True, False])
        return good if it.values[what] else bad

    def done(what):
        def f(it, a):
            it.ran.append((what, a[0], it.ctx.truth(a[1]) if len(a) > 1 else None))
            good = it.ctx.choose((what + ' succeeds',), [True, False])
            it.good = good
            return ok() if good else err(Term(what + ' failed', (), Ty('anyhow')))
        return f

    def stats(it, a):
        it.metrics.append(a)
        return UNIT

    def setup(it):
        it.ran, it.metrics, it.values, it.good, it.read = [], [], {}, None, None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res = it.force(out.value)
        o, m = it.force(it.path), it.read
        got = it.force(m)
        if (got.variant, o.variant) not in (('Some', 'Some'), ('None', 'None')) or got.variant == 'Some' and not it.ctx.str_eq(strval(it, got.fields[0]), strval(it, o.fields[0])):
            return 'configuration: path', f'the configuration is read from {show(got)}, the command line says {show(o)}'
        if not it.ctx.known(('the configuration is valid',)):
            if res.variant == 'Ok' or it.ran:
                return 'configuration: broken', f'with a broken configuration the program {"does " + it.ran[0][0] if it.ran else "succeeds"}'
            return
        cmd = it.ctx.known(('command',))
        want = 'run' if cmd == 'Run' else 'cleanup'
        if [r[0] for r in it.ran] != [want]:
            return 'commands: wrong', f'the command {want} does {[r[0] for r in it.ran]}'
        bad = []
        if it.ctx.norm(it.freeze(it.ran[0][1])) != it.ctx.norm(it.freeze(it.conf)):
            bad.append(('commands: configuration', f'{want} gets another configuration than was read: {show(it.ran[0][1])}'))
        if cmd == 'Cleanup' and it.ran[0][2] != it.dry:
            bad.append(('commands: dry run', f'with dry_run = {it.dry} the caches are cleaned with dry_run = {it.ran[0][2]}'))
        if (res.variant == 'Ok') != it.good:
            bad.append(('commands: result', f'{want} {"succeeds" if it.good else "fails"}, but the program returns {show(res)}'))
        if len(it.metrics) != int(it.statsd):
            bad.append(('metrics: enabled', f'metrics are configured {len(it.metrics)} times, with statsd = {it.statsd}'))
        elif it.statsd:
            prefix, host, tags = it.metrics[0]
            for what, x, y in (('prefix', prefix, 'prefix'), ('host', host, 'statsd host')):
                if it.ctx.sstr(deref(x)).lit() != y:
                    bad.append((f'metrics: {what}', f'metrics are sent with the {what} {show(x)}'))
            got = {it.ctx.sstr(k).lit(): strval(it, v) for k, v in deref(tags).items}
            want = {'custom': Str('value')}
            for n, v in TAGS.items():
                if it.ctx.known((n,)) and it.values.get(v, True):
                    want[v + ' tag'] = Str('this ' + v)
            if set(got) != set(want) or not all(it.ctx.str_eq(got[k], want[k]) for k in want):
                bad.append(('metrics: tags', f'metrics are sent with the tags {got}, expected {want}'))
        return bad
    from engine.std import m as method

    def env(it, a):
        n = it.ctx.sstr(deref(a[0])).lit()
        if n != 'SYMBOLICATOR_PLATFORM':
            return err(Term('no variable', (), Ty('VarError')))
        return known(it, 'platform', ok(Str('this platform')), err(Term('no variable', (), Ty('VarError'))))

    def host(it, a):
        return known(it, 'host', ok(Str('this host')), Enum('Result', 'Err', [Term('no host', (), E_IO)]))

    def options(it, r, a):
        e = known(it, 'environment', some(Str('this environment')), none())
        return Struct('ClientOptions', {'environment': e})
    c.product('commands', 'symbolicator::cli::execute', spec, setup=setup, floor=40, k=4,
              models={'Cli::parse': parsed, 'env::var': env, 'hostname::get': host, 'sentry::init': lambda it, a: Native('sentry')},
              mmodels={'options': options, 'into_string': lambda it, r, a: ok(deref(r))},
              opaque={'Config::get': load, 'run': done('run'), 'cleanup': done('cleanup'), 'configure_statsd': stats, 'init_logging': lambda it, a: UNIT})
