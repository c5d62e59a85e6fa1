"""Executes a Code_Aster command file as what it is, a Python program, with recording stubs.

Every called name that nothing in the file assigns is an Aster command; the stub records the call
(arguments in order) and returns a concept bound to the assigned name.  A name used before it is defined (or after
it was destroyed) is an error of the file.
"""
import ast, builtins, collections

class CommError(Exception):
    pass

class Concept:
    def __init__(self, cmd, args):
        self.cmd, self.args, self.name = cmd, args, None
    def __repr__(self):
        return "<%s %s>" % (self.cmd, self.name)
    # tables / numeric services used by generated Python
    def __getitem__(self, k):
        return Item(self)
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "LIST_VARI_ACCES":
            return lambda: {"FREQ": Modes(self)}
        return lambda *a, **kw: self

# what a modal analysis is taken to have found, for the command files which compute with its frequencies
MODES = [4.7, 17.3, 33., 41.7, 52.25, 260.]

class Modes(list):
    """frequencies of the modes of a concept; keeps the concept they come from"""
    def __init__(self, source):
        list.__init__(self, MODES)
        self.source = source

class Item(float):
    """what a concept service returns; keeps the concept it comes from"""
    def __new__(cls, source):
        x = float.__new__(cls, 1.0)
        x.source = source
        return x

class F(dict):
    """_F(...) factor keyword"""

def _F(*a, **kw):
    if a:
        raise CommError("positional argument in _F")
    return F(kw)

class CO:
    def __init__(self, name):
        self.name = name

BUILTIN = {"sin", "cos", "sqrt", "exp", "log", "pi"}

class Comm:
    """calls: list of (assigned name or None, command, args dict)"""
    def __init__(self, text):
        self.calls = []
        self.undefined = []
        self.errors = []
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            self.errors.append("syntax error line %s: %s" % (e.lineno, (e.text or "").strip()))
            self.env = {}
            return
        assigned, called = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                called.add(n.func.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    assigned.add((a.asname or a.name).split(".")[0])
        env = {"_F": _F, "CO": self._co, "__builtins__": __builtins__}
        self.env = env
        self._pending_co = []
        for c in called - assigned:
            if c in ("_F", "CO") or hasattr(builtins, c):
                continue
            env[c] = self._stub(c)
        self.defined = {}
        for st in tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                try:
                    exec(compile(ast.Module([st], []), "comm", "exec"), env)
                except ImportError:
                    for a in st.names:
                        env[(a.asname or a.name).split(".")[0]] = Concept("import", {})
                continue
            n0 = len(self.calls)
            try:
                exec(compile(ast.Module([st], []), "comm", "exec"), env)
            except NameError as e:
                self.undefined.append("line %d: %s" % (st.lineno, e))
                continue
            except CommError as e:
                self.errors.append("line %d: %s" % (st.lineno, e))
                continue
            except Exception as e:
                self.errors.append("line %d: %r" % (st.lineno, e))
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = env.get(st.targets[0].id)
                if isinstance(v, Concept):
                    v.name = st.targets[0].id
                    if len(st.targets[0].id) > 8:
                        self.errors.append("line %d: concept name %s longer than 8 characters" % (st.lineno, st.targets[0].id))
                if len(self.calls) > n0:
                    self.calls[-1] = (st.targets[0].id,) + self.calls[-1][1:]
            for c in self._pending_co:
                env[c.name] = Concept("CO", {}); env[c.name].name = c.name
            self._pending_co = []
            for _, cmd, args in self.calls[n0:]:
                if cmd == "DETRUIRE":
                    for f in seq(args.get("CONCEPT")):
                        for x in seq(f.get("NOM")):
                            nm = x.name if isinstance(x, (Concept, CO)) else x if isinstance(x, str) else None
                            if nm is None:
                                continue
                            if nm not in env:
                                self.undefined.append("DETRUIRE of undefined %s" % nm)
                            env.pop(nm, None)
    def _co(self, name):
        c = CO(name)
        self._pending_co.append(c)
        return c
    def _stub(self, c):
        def f(*a, **kw):
            if a:
                raise CommError("positional argument in %s" % c)
            self.calls.append((None, c, kw))
            r = kw.get("reuse")
            if isinstance(r, Concept):
                return Concept(c, kw)
            return Concept(c, kw)
        return f
    def of(self, *cmds):
        return [(n, c, a) for n, c, a in self.calls if c in cmds]

def seq(x):
    """a value that may be given alone or in a sequence"""
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x]
