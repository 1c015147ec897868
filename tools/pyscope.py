"""Scope and dependency analysis of the Python sources.

names:   every name that is read resolves to a binding of an enclosing scope, to a builtin or to
         something a star import may provide;
caches:  what a function stores in a module-level dictionary depends on no parameter that the key
         does not depend on, and it looks entries up under a key with the same dependencies."""
import ast, builtins, glob, os, re, symtable


def cpp_names(repo):
    """names the compiled module may provide: every string literal of the binding sources that is an identifier"""
    names = set()
    for f in glob.glob(os.path.join(repo, "python/dune/geometry/*.cc")) + glob.glob(os.path.join(repo, "dune/python/geometry/*.hh")):
        names.update(re.findall(r'"([A-Za-z_]\w*)"', open(f, encoding="utf-8").read()))
    return names


def module_names(repo, path, seen):
    """names bound anywhere at module level, with the star imports inside the package resolved"""
    if path in seen: return set(), False
    seen.add(path)
    tree = ast.parse(open(path, encoding="utf-8").read(), path)
    names = set(); openstar = False
    def walk(n):
        nonlocal openstar
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            for g in ast.walk(n):
                if isinstance(g, ast.Global): names.update(g.names)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return
        if isinstance(n, ast.Import): names.update(a.asname or a.name.split(".")[0] for a in n.names)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != "*": names.add(a.asname or a.name); continue
                if n.level == 1 and n.module == "_geometry": names.update(x for x in cpp_names(repo) if not x.startswith("_")); continue
                sub = os.path.join(os.path.dirname(path), (n.module or "").replace(".", "/") + ".py")
                if n.level == 1 and os.path.exists(sub):
                    got, o = module_names(repo, sub, seen); openstar |= o
                    names.update(g for g in got if not g.startswith("_"))
                else: openstar = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        for c in ast.iter_child_nodes(n): walk(c)
    walk(tree)
    return names, openstar


def own(fn):
    """nodes of a function without nested functions and classes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop(); yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)): continue
        stack.extend(ast.iter_child_nodes(n))


def reads(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def dependencies(fn):
    """parameters each local name depends on: assignments, and the conditions they are under"""
    params = {a.arg for a in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs}
    deps = {p: {p} for p in params}
    def of(names): return set().union(*[deps.get(x, set()) for x in names]) if names else set()
    def visit(body, ctrl):
        ch = False
        def bind(t, d):
            nonlocal ch
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not d <= deps.setdefault(x.id, set()): deps[x.id] |= d; ch = True
        for st in body:
            if isinstance(st, ast.Assign):
                for t in st.targets: bind(t, of(reads(st.value)) | ctrl)
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)) and st.value is not None: bind(st.target, of(reads(st.value)) | ctrl)
            elif isinstance(st, ast.For): bind(st.target, of(reads(st.iter)) | ctrl); ch |= visit(st.body + st.orelse, ctrl | of(reads(st.iter)))
            elif isinstance(st, (ast.If, ast.While)): ch |= visit(st.body + st.orelse, ctrl | of(reads(st.test)))
            elif isinstance(st, ast.With):
                for i in st.items:
                    if i.optional_vars is not None: bind(i.optional_vars, of(reads(i.context_expr)) | ctrl)
                ch |= visit(st.body, ctrl)
            elif isinstance(st, ast.Try): ch |= visit(st.body + st.orelse + st.finalbody + [s for h in st.handlers for s in h.body], ctrl)
            for x in ast.walk(st):
                if isinstance(x, ast.NamedExpr): bind(x.target, of(reads(x.value)) | ctrl)
        return ch
    while visit(fn.body, set()): pass
    return params, deps, of


def caches(path, rel, viol):
    tree = ast.parse(open(path, encoding="utf-8").read(), path)
    dicts = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Dict, ast.Call)):
            if isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id == "dict"): continue
            dicts.update(t.id for t in n.targets if isinstance(t, ast.Name))
    ob = 0
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        params, deps, of = dependencies(fn)
        stores = {}; loads = []
        for n in own(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in dicts - set(deps): stores.setdefault(t.value.id, []).append((of(reads(t.slice)), of(reads(n.value)), n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in dicts - set(deps) and n.args:
                if n.func.attr == "setdefault" and len(n.args) == 2: stores.setdefault(n.func.value.id, []).append((of(reads(n.args[0])), of(reads(n.args[1])), n.lineno))
                elif n.func.attr == "get": loads.append((n.func.value.id, of(reads(n.args[0])), n.lineno))
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in dicts - set(deps): loads.append((n.value.id, of(reads(n.slice)), n.lineno))
        for d, ss in stores.items():
            for key, val, line in ss:
                ob += 1
                # what was itself looked up in the dictionary adds nothing to the key
                miss = (val & params) - key
                if miss: viol.append(dict(kind="cache", msg="a remembered value depends on no more than its key: the value stored in %s depends on %s, the key does not" % (d, ", ".join(sorted(miss))), where="%s:%d in %s" % (rel, line, fn.name), cond="", instance="dictionary=" + d, claim_at=""))
                for d2, k2, l2 in loads:
                    if d2 != d: continue
                    ob += 1
                    if k2 & params != key & params: viol.append(dict(kind="cache", msg="values are looked up under the key they were stored under: the lookup depends on %s, the store on %s" % (sorted(k2 & params), sorted(key & params)), where="%s:%d in %s" % (rel, l2, fn.name), cond="", instance="dictionary=" + d, claim_at=""))
    return ob


def check(repo, here, tmp, cxx, tier):
    files = sorted(glob.glob(os.path.join(repo, "python/dune/geometry/*.py")))
    ob = 0; viol = []; nc = 0
    for path in files:
        rel = os.path.relpath(path, repo)
        src = open(path, encoding="utf-8").read()
        names, openstar = module_names(repo, path, set())
        known = names | set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__"}
        lines = {}
        for n in ast.walk(ast.parse(src, path)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): lines.setdefault(n.id, []).append(n.lineno)
        def visit(t):
            nonlocal ob
            for s in t.get_symbols():
                if not s.is_referenced(): continue
                ob += 1
                if (s.is_global() or t.get_type() == "module") and not openstar and s.get_name() not in known:
                    at = [l for l in lines.get(s.get_name(), []) if l >= t.get_lineno()] or [t.get_lineno()]
                    viol.append(dict(kind="name", msg="every name used in Python resolves to a definition: '%s' is not defined" % s.get_name(), where="%s:%d in %s" % (rel, at[0], t.get_name()), cond="", instance="name=" + s.get_name(), claim_at=""))
            for c in t.get_children(): visit(c)
        visit(symtable.symtable(src, path, "exec"))
        nc += caches(path, rel, viol)
    if not files: raise SystemExit("check error: no Python sources found")
    return ob + nc, viol, dict(python_files=[os.path.relpath(f, repo) for f in files], python_names_resolved=ob, python_cache_obligations=nc)
