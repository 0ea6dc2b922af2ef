"""C19: changing settings never corrupts or loses other settings."""

import tomllib

from .common import *

RULE = ('a run counts when a change was stored in a file that already held settings, or a save was interrupted; distinct '
        'means a different order in which threads were scheduled')
ASSUMPTIONS = ['a program dies without the computer losing power', 'no two changes are made at the same moment, except in the '
               'runs that look only at whether the file stays whole', 'values that the `toml` package cannot read back from '
               'correct TOML (a text of nothing but quotation marks) are not used']
QUICK = {'runs': 4000, 'seconds': 65}
THOROUGH = {'runs': 150000, 'seconds': 900}

LAYOUTS = [
    '', '# nothing here\n', '[server]\nport = 50001\n\n[client]\ntimeout = 600\n',
    '# head\n[server] # the server\nport = 50001 # port\n# tail\n[logging]\nlevel = "debug"\n',
    '[server]\nport = 1', '[server]\r\nport = 50001\r\n[client]\r\ntimeout = 60\r\n',
    '[server]\nport = 50001\n[client]\ntimeout = 1\n[server.sub]\ny = 2\n',
    'server = {port = 50001, sub = {y = 2}}\n[client]\ntimeout=1\n',
    '[autoscale]\nsize.init = 1\nsize.min = 2\nfactor = 3\n',
    '[autoscale.size]\ninit = 1\n[server]\nport = 2\n', '[autoscale.size]\ninit = 1\n[server]\nport = 2\n[autoscale]\nfactor = 2\n',
    'server.port = 1\nserver.sub.y = 2\n[client]\ntimeout = 1\n',
    '[ssh]\nargs = "-i ~/.ssh/id"\n[ssh.nodelist]\nmycluster = ["a", "b-[01-20]"]\nother = "c"\n',
    '[[ssh.groups]]\nname = "a"\n[[ssh.groups]]\nname = "b"\n[server]\nport = 3\n',
    '["my.section"]\nx = 1\n[server]\n"a b" = 2\n"port" = 3\n',
    '[server]\nauth = """\nhello\nworld"""\narr = [\n 1,\n 2, # c\n]\n',
    'title = "ünïcödé 日本語"\n[server]\nport = 1\nauth = \'C:\\temp\'\n[export]\nPATH_X = "a:b"\n',
    '[database]\nprovider = "sqlite"\nfile = "/tmp/x y.db"\n\n[task]\nd = 2020-01-01T00:00:00Z\nf = 1.0\n\n\n[a.b.c]\nd = true\n']
PATHS = ['server.port', 'server.bind', 'server.sub.y', 'server.sub.z', 'server.new', 'client.timeout', 'client.size.init',
         'autoscale.size.init', 'autoscale.size.max', 'autoscale.factor', 'autoscale.policy', 'new.a', 'new.b.c', 'console.theme',
         'ssh.args', 'ssh.nodelist.third', 'server.a b', 'a.b.c.e', 'a.b.x', 'export.FOO', 'task.cwd']
VALUES = ['5', '-5', '0', '3.5', '1e3', 'true', 'False', 'text', 'two words', '', "it's", 'say "hi" now', 'back\\slash', 'a#b',
          'line\nbreak', 'tab\there', 'ünïcödé 日本語 😀', '[1, 2]', '{x = 1}', '2024-01-01', '007', '$HOME', '%s', '~', 'x' * 300,
          '1_000', 'inf', 'a=b', '[server]', '=', "'''", 'a\u2028b']

READ = '''
import json, os
c = load('hypershell.core.config')
files = {}
for scope in ('user', 'local'):
    p = c.path[scope].config
    d = os.path.dirname(p)
    text = mode = data = None
    if os.path.exists(p):
        with open(p, newline='') as f:
            text = f.read()
        mode = os.stat(p).st_mode & 0o777
        data = json.dumps(c.load_file(p).to_dict(), default=str)
    saved = []
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if n.startswith('.config.') and n.endswith('.toml'):
            with open(os.path.join(d, n), newline='') as f:
                saved.append(f.read())
    files[scope] = {'text': text, 'mode': mode, 'link': os.path.islink(p), 'data': data, 'saved': saved}
note('read', files=files, merged=json.dumps({k: dict(c.config)[k] for k in dict(c.config)}, default=str))
'''

FS_POINTS = [('fs-open', 6), ('fs-opened', 4), ('fs-write', 4), ('fs-written', 4), ('fs-replace', 1), ('fs-replace-done', 1),
             ('fs-makedirs', 4), ('fs-rename', 1), ('fs-rename-done', 1), ('fs-chmod', 4), ('fs-chmod-done', 3), ('fs-fsync', 1),
             ('fs-unlink', 1), ('fs-remove', 1), ('fs-mkdir', 1), ('fs-truncate', 1)]


def coerce(text):
    low = text.lower()
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return text


def changed(data, varpath, value):
    """The settings after the change."""
    data = json.loads(json.dumps(data, default=str))
    *sections, var = varpath.split('.')
    d = data
    for s in sections:
        if not isinstance(d.get(s), dict):
            d[s] = {}
        d = d[s]
    d[var] = value
    return data


def conflicts(data, varpath):
    """Would the change replace a section by a value or a value by a section?"""
    d = data
    *sections, var = varpath.split('.')
    for s in sections:
        if s in d and not isinstance(d[s], dict):
            return True
        d = d.get(s, {})
    return isinstance(d.get(var), dict)


def generate(rng, i, tier):
    b = Builder(rng, horizon=200)
    b.env(LOGGING_LEVEL='warning')
    scopes = {'user': ('home/.hypershell/config.toml', {'HYPERSHELL_CONFIG_FILE': None}),
              'local': ('site-h0/config.toml', rng.choice([{}, {'HYPERSHELL_CONFIG_FILE': None}]))}
    base = {}
    for scope, (rel, env) in scopes.items():
        if rng.random() < 0.75:
            base[scope] = rng.choice(LAYOUTS)
            b.sc['files'][rel] = base[scope]
    # what the program is told elsewhere must not hide what the files say
    for k in list(b.sc['env']):
        if k != 'HYPERSHELL_LOGGING_LEVEL':
            del b.sc['env'][k]
    del b.sc['env']['HYPERSHELL_LOGGING_LEVEL']
    home = rng.random()
    prep = []
    for scope, (rel, env) in scopes.items():
        if scope in base and rng.random() < 0.3:
            prep.append([rel, rng.choice(['0o600', '0o640', '0o400']), rng.random() < 0.4])
    script = ['import os, shutil']
    for rel, mode, link in prep:
        path = f'%S%/{rel}'
        if link:
            script += [f'shutil.move({path!r}, {path + ".real"!r})', f'os.symlink({path + ".real"!r}, {path!r})']
        script += [f'os.chmod({path!r}, {mode})']
    if home < 0.5 or 'user' in base:
        script += ["os.makedirs('%S%/home/.hypershell', exist_ok=True)"]
    b.proc('prep', ['script', 'prep'], script='\n'.join(script) + '\n', bare=True, at=0)
    last = 'read'
    sets = {}
    both = {'HYPERSHELL_CONFIG_FILE': None}
    b.proc('read', ['script', 'read'], script=READ, bare=True, after='prep', delay=0.1, env=both)
    now = {s: tomllib.loads(t) for s, t in base.items()}
    for k in range(rng.randint(1, 4)):
        name = f'set{k}'
        scope = rng.choice(['user', 'user', 'local'])
        for _ in range(50):
            var = rng.choice(PATHS)
            if not conflicts(now.get(scope, {}), var):
                break
        value = rng.choice(VALUES)
        now[scope] = changed(now.get(scope, {}), var, coerce(value))
        flag = [] if scope == 'user' and rng.random() < 0.5 else [f'--{scope}']
        order = [var, value, *flag] if rng.random() < 0.5 else [*flag, var, value]
        if value.startswith('-'):
            order = [var, value, *flag]
        b.proc(name, ['hs', 'config', 'set', *order], after=last, delay=rng.choice([0.01, 0.1, 0.9, 3]), env=scopes[scope][1])
        sets[name] = {'scope': scope, 'var': var, 'value': coerce(value)}
        for j in range(rng.choice([0, 0, 0, 1, 2])):
            b.proc(f'peek{k}{j}', ['script', 'read'], script=READ, bare=True, env=both,
                   upon=[name, rng.choice(['proc-start', 'file-open', 'file-open']), rng.choice([1, 1, 2])],
                   delay=rng.choice([0, 0, 0.001, 0.5, 2]))
        if rng.random() < 0.5:
            fault(b, rng, name)
        if rng.random() < 0.12:
            rival = f'rival{k}'
            var = rng.choice([v for v in PATHS if not conflicts(now[scope], v) and v != sets[name]['var']])
            value = rng.choice(VALUES)
            if var in ('server.port', 'server.bind', 'client.timeout', 'new.a', 'server.new'):
                b.proc(rival, ['hs', 'config', 'set', var, value, f'--{scope}'], env=scopes[scope][1],
                       upon=[name, rng.choice(['proc-start', 'file-open']), 1])
                sets[name]['rival'] = {'name': rival, 'var': var, 'value': coerce(value)}
        b.proc(f'read{k}', ['script', 'read'], script=READ, bare=True, after=name, delay=rng.choice([0, 0.1]) if 'rival' not in sets[name]
               else 15, env=both)
        last = f'read{k}'
    b.sc['optional_procs'] = [p['name'] for p in b.sc['procs'] if p['name'].startswith(('peek', 'rival'))]
    return b.done(base=base, sets=sets, prep={rel: mode for rel, mode, link in prep})


def fault(b, rng, name):
    r = rng.random()
    point, n = rng.choice(FS_POINTS)
    if r < 0.35:
        b.fault(do='sigkill', proc=name, on=[name, point, rng.randint(1, n)])
    elif r < 0.6:
        b.fault(do='freeze', proc=name, on=[name, point, rng.randint(1, n)], **{'for': rng.choice([1, 5])})
    elif r < 0.8:
        b.sc.setdefault('write_plan', []).append(
            {'path': rng.choice(['config', 'config', '']), 'proc': name, 'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']),
             'after': rng.choice([0, 0, 5, 40, 120])})
    elif r < 0.9:
        b.sc.setdefault('open_plan', []).append(
            {'path': 'config', 'proc': name, 'err': rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EROFS'])})
    else:
        b.sc.setdefault('fs_plan', []).append(
            {'kind': rng.choice(['fs-replace', 'fs-rename', 'fs-makedirs', 'fs-chmod', 'fs-remove']), 'proc': name,
             'err': rng.choice(['EIO', 'EPERM', 'ENOSPC']), 'path': 'config'})


def same(data, want):
    return json.dumps(data, sort_keys=True, default=str) == json.dumps(want, sort_keys=True, default=str)


def parsed(text):
    """Settings in a file; None if it is damaged."""
    if text is None:
        return {}
    try:
        return json.loads(json.dumps(tomllib.loads(text.replace('\r\n', '\n')), default=str))
    except tomllib.TOMLDecodeError:
        return None


def judge(run):
    meta = run.scenario['meta']
    base = {s: parsed(meta['base'].get(s)) for s in ('user', 'local')}
    reads = {}
    for seq, t, kind, proc, data in run.events:
        if kind == 'read':
            reads[proc] = (t, data)
    for name, p in run.procs.items():
        if name.startswith(('read', 'peek')) and p.dead and name not in reads:
            run.fail('unreadable', f'a program that started at {as_s(p.started)} cannot read its configuration: exit status '
                     f'{p.exit_code}: {p.stderr.text()[-400:]!r}', p.started)
            return
    if 'read' not in reads:
        return
    faulty = set()
    for f in run.scenario['faults']:
        faulty.add(f['proc'])
    for plan in ('write_plan', 'open_plan', 'fs_plan'):
        faulty.update(x['proc'] for x in run.scenario.get(plan, ()))
    cur = {s: {'data': base[s], 'text': meta['base'].get(s)} for s in base}
    before = reads['read'][1]['files']
    for name, info in meta['sets'].items():
        p = run.procs.get(name)
        if p is None or p.started is None:
            break
        scope = info['scope']
        options = [cur[scope]['data'], changed(cur[scope]['data'], info['var'], info['value'])]
        rival = info.get('rival')
        rp = run.procs.get(rival['name']) if rival else None
        if rp is not None and rp.started is not None:
            options = [*options, *[changed(o, rival['var'], rival['value']) for o in options]]
        other = 'local' if scope == 'user' else 'user'
        for peek, (t, data) in reads.items():
            if peek.startswith(f'peek{name[3:]}') and (not p.dead or t <= p.exit_time) and t >= p.started:
                if not check(run, peek, data['files'], scope, options, other, cur):
                    return
                run.nontrivial = True
        if not p.dead:
            break
        after = reads.get(f'read{name[3:]}')
        if after is None:
            break
        files = after[1]['files']
        broken = p.killed_by != 'exit' or p.exit_code != 0
        if not broken and not (rp is not None and rp.started is not None):
            options = options[1:]
        elif name not in faulty:
            if p.killed_by != 'exit' or p.exit_code != 0:
                run.fail('failed', f'{p.argv} ended with {p.exit_code}: {p.stderr.text()[-400:]!r}', p.exit_time)
                return
        if broken or cur[scope]['text'] is not None:
            run.nontrivial = True
        if not check(run, f'{p.argv[3:]} (status {p.exit_code}, {p.killed_by})', files, scope, options, other, cur):
            return
        was = before[scope]
        if was['text'] is not None:
            if files[scope]['mode'] != was['mode'] or files[scope]['link'] != was['link']:
                run.fail('permissions', f'after {p.argv[3:]} the file has permissions {files[scope]["mode"]:o} '
                         f'(link: {files[scope]["link"]}), it had {was["mode"]:o} (link: {was["link"]})', p.exit_time)
                return
            if not broken and rp is None and was['text'] not in files[scope]['saved']:
                run.fail('no-backup', f'after {p.argv[3:]} no backup holds the previous content {was["text"]!r}', p.exit_time)
                return
        if not broken and rp is None and not precedence(run, p, info, after[1]):
            return
        before = files
        cur[scope] = {'data': parsed(files[scope]['text']), 'text': files[scope]['text']}


def check(run, who, files, scope, options, other, cur):
    """Whole, readable, and one of the allowed contents."""
    data = parsed(files[scope]['text'])
    if data is None:
        run.fail('damaged', f'{who}: the {scope} configuration is not valid: {files[scope]["text"]!r}')
        return False
    if not any(same(data, o) for o in options):
        run.fail('lost', f'{who}: the {scope} configuration holds {data}, expected {" or ".join(map(str, options))}')
        return False
    if files[scope]['text'] is not None and not same(json.loads(files[scope]['data']), data):
        run.fail('misread', f'{who}: the {scope} configuration says {data} and is read as {files[scope]["data"]}')
        return False
    if files[other]['text'] != cur[other]['text']:
        run.fail('other-file', f'{who}: the {other} configuration was changed to {files[other]["text"]!r}')
        return False
    return True


def precedence(run, p, info, seen):
    """The next program uses the value, unless a more specific file says otherwise."""
    value = info['value']
    if info['scope'] == 'user':
        d = parsed(seen['files']['local']['text'])
        for s in info['var'].split('.'):
            if not isinstance(d, dict):
                return True
            if s not in d:
                break
            d = d[s]
        else:
            return True
    d = json.loads(seen['merged'])
    for s in info['var'].split('.'):
        if not isinstance(d, dict) or s not in d:
            run.fail('invisible', f'{p.argv[3:]}: the next program does not see {info["var"]}')
            return False
        d = d[s]
    if not same(d, value):
        run.fail('invisible', f'{p.argv[3:]}: the next program sees {d!r}')
        return False
    return True
