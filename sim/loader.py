"""Private copies of the code under test: instrumentation, per-process module sets, builtins."""

import ast
import builtins as _builtins
import importlib.util
import io as _io
import os
import sys
import types

from .kernel import HarnessError
from . import mods, mp

REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PRIVATE = ('hypershell', 'cmdkit', 'logging', 'queue', 'argparse', 'threading', 'shutil', 'tempfile', 'concurrent',
           'sched', 'atexit')
CODE = {}          # fullname -> (code, path, is_package)
CLOCK_ATTRS = ('now', 'utcnow', 'today')


class Instrument(ast.NodeTransformer):
    """Yield points before every statement of every function; clock reads through the simulator."""

    def __init__(self, yields):
        self.yields = yields
        self.depth = 0

    def _body(self, stmts, docstring=False):
        out = []
        for i, st in enumerate(stmts):
            st = self.visit(st)
            skip = isinstance(st, (ast.Global, ast.Nonlocal)) or (
                docstring and i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
                and isinstance(st.value.value, str))
            if self.yields and self.depth and not skip:
                call = ast.Expr(ast.Call(ast.Name('__yp__', ast.Load()), [], []))
                ast.copy_location(call, st)
                ast.fix_missing_locations(call)
                out.append(call)
            out.append(st)
        return out

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self._body(node.body, docstring=True)
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        saved, self.depth = self.depth, 0
        node.body = self._body(node.body)
        self.depth = saved
        return node

    def _block(self, node):
        for field, value in ast.iter_fields(node):
            if field in ('body', 'orelse', 'finalbody') and isinstance(value, list):
                setattr(node, field, self._body(value))
            elif isinstance(value, list):
                setattr(node, field, [self.visit(v) if isinstance(v, ast.AST) else v for v in value])
            elif isinstance(value, ast.AST):
                setattr(node, field, self.visit(value))
        return node

    visit_If = visit_For = visit_While = visit_Try = visit_With = visit_AsyncFor = visit_AsyncWith = _block
    visit_ExceptHandler = _block
    visit_match_case = _block
    visit_TryStar = _block

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in CLOCK_ATTRS and isinstance(node.ctx, ast.Load):
            call = ast.Call(ast.Name('__clk__', ast.Load()), [node.value, ast.Constant(node.attr)], [])
            ast.copy_location(call, node)
            ast.fix_missing_locations(call)
            return call
        return node


def find_source(fullname):
    top = fullname.partition('.')[0]
    rel = fullname.replace('.', '/')
    if top == 'hypershell':
        base = os.path.join(SRC, rel)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None
    spec = importlib.util.find_spec(fullname)
    if spec is None or not spec.origin or not spec.origin.endswith('.py'):
        return None
    return spec.origin, spec.submodule_search_locations is not None


def get_code(fullname):
    entry = CODE.get(fullname)
    if entry is None:
        found = find_source(fullname)
        if found is None:
            CODE[fullname] = entry = (None, None, False)
            return entry
        path, pkg = found
        with open(path, encoding='utf-8') as f:
            text = f.read()
        top = fullname.partition('.')[0]
        tree = ast.parse(text, path)
        if top in ('hypershell', 'cmdkit'):
            tree = Instrument(yields=top == 'hypershell').visit(tree)
            # docstring and future imports stay first: module level is not instrumented
        entry = CODE[fullname] = (compile(tree, path, 'exec', dont_inherit=True, flags=0), path, pkg)
    return entry


def precompile():
    """Compile everything ahead of forking."""
    for root, _, files in os.walk(os.path.join(SRC, 'hypershell')):
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), SRC)[:-3].replace('/', '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                get_code(rel)
    for name in ('cmdkit', 'cmdkit.app', 'cmdkit.cli', 'cmdkit.config', 'cmdkit.ansi', 'cmdkit.namespace',
                 'cmdkit.platform', 'cmdkit.logging', 'logging', 'queue', 'argparse', 'threading', 'shutil'):
        get_code(name)


class Loader:
    """The import system of one simulated process."""

    def __init__(self, proc):
        self.proc = proc
        sim = proc.sim
        self.modules = {}
        b = dict(vars(_builtins))
        self.builtins = b
        clock = mods.Clock(proc)
        b['__import__'] = self.import_
        b['__clk__'] = clock.attr

        def yp():
            sim.budget -= 1
            if sim.budget <= 0:
                sim.tick()
        b['__yp__'] = yp
        b['open'] = lambda *a, **k: proc.world.open(proc, *a, **k)
        b['print'] = self.print_
        b['input'] = self.input_
        b['exit'] = b['quit'] = lambda code=None: (_ for _ in ()).throw(SystemExit(code))
        self.seams = {
            'time': mods.make_time_module(proc),
            'random': mods.make_random_module(proc),
            'uuid': mods.make_uuid_module(proc),
            'secrets': mods.make_secrets_module(proc),
            'socket': mods.make_socket_module(proc),
            'signal': mods.make_signal_module(proc),
            'sys': mods.make_sys_module(proc),
            'os': mods.make_os_module(proc),
            '_thread': mods.make_thread_module(proc),
            **mp.make_modules(proc),
        }
        self.seams['os.path'] = self.seams['posixpath'] = self.seams['os'].path
        io = mods.copy_module(_io)
        io.open = b['open']
        self.seams['io'] = io
        from . import child
        self.seams['subprocess'] = child.make_subprocess_module(proc)
        import platform
        plat = mods.copy_module(platform)
        plat.node = lambda: proc.host
        self.seams['platform'] = plat
        self.seams['rich.console'] = mods.make_console_module(proc)
        atexit = types.ModuleType('atexit')
        atexit.register = lambda fn, *a, **k: (proc.atexit.append((fn, a, k)), fn)[1]
        atexit.unregister = lambda fn: None
        self.seams['atexit'] = atexit
        self.sys = self.seams['sys']

    def print_(self, *args, sep=' ', end='\n', file=None, flush=False):
        if file is None:
            file = self.sys.stdout
        sep = ' ' if sep is None else sep
        end = '\n' if end is None else end
        file.write(sep.join(map(str, args)) + end)
        if flush:
            file.flush()

    def input_(self, prompt=''):
        self.sys.stdout.write(prompt)
        line = self.sys.stdin.readline()
        if not line:
            raise EOFError('EOF when reading a line')
        return line.rstrip('\n')

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or (globals or {}).get('__name__', '')
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts) + ('.' + name if name else '')
        if name in self.seams:
            if fromlist:
                return self.seams[name]
            return self.seams[name.partition('.')[0]]
        top = name.partition('.')[0]
        if top in PRIVATE:
            mod = self.load(name)
            if fromlist:
                for attr in fromlist:
                    if attr != '*' and not hasattr(mod, attr) and hasattr(mod, '__path__'):
                        sub = f'{name}.{attr}'
                        if get_code(sub)[0] is not None:
                            self.load(sub)
                return mod
            return self.modules[top]
        if top == 'multiprocessing':
            raise HarnessError(f'module {name} is not simulated')
        return _builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, fullname):
        mod = self.modules.get(fullname)
        if mod is not None:
            return mod
        parent, _, child = fullname.rpartition('.')
        if parent:
            self.load(parent)
            mod = self.modules.get(fullname)
            if mod is not None:
                return mod
        code, path, pkg = get_code(fullname)
        if code is None:
            raise ModuleNotFoundError(f'No module named {fullname!r}', name=fullname)
        sim = self.proc.sim
        mod = types.ModuleType(fullname)
        d = mod.__dict__
        d['__file__'] = path
        d['__builtins__'] = self.builtins
        d['__package__'] = fullname if pkg else parent
        if pkg:
            d['__path__'] = [os.path.dirname(path)]
        self.modules[fullname] = mod
        expose = fullname.partition('.')[0] in ('hypershell', 'cmdkit')
        sim.no_preempt += 1
        saved = sys.modules.get(fullname)
        if expose:
            sys.modules[fullname] = mod
        try:
            exec(code, d)
        except BaseException:
            self.modules.pop(fullname, None)
            raise
        finally:
            sim.no_preempt -= 1
            if expose and sim.no_preempt == 0:
                for k in [k for k in sys.modules if k.partition('.')[0] in ('hypershell', 'cmdkit')]:
                    del sys.modules[k]
        if fullname == 'hypershell.core.platform':
            for k, v in list(mod.path.system.items()):       # the system site lives in the scratch directory
                mod.path.system[k] = os.path.join(self.proc.world.root(self.proc.host), v.lstrip('/'))
        if fullname == 'shutil':
            d['_USE_CP_SENDFILE'] = False
        if fullname == 'queue':
            d['SimpleQueue'] = d['_PySimpleQueue']
            import queue as _queue
            d['Full'], d['Empty'] = _queue.Full, _queue.Empty      # one identity, as inside one interpreter
        if parent:
            setattr(self.modules[parent], child, mod)
        return mod
