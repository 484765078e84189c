"""Mechanical rewriting of the repository's source before symbolic execution.

Only control structure is touched (see DESIGN.md, "what the extraction drops"):
  * `for` statements and comprehensions get a dispatch: concrete iterables run the original
    body unchanged, symbolic-length iterables go to the loop-summarisation rule;
  * `while` statements with a registered loop contract are cut at the loop head;
  * `[]` displays become growable symbolic lists, f-strings keep symbolic parts.
"""
import ast


class _Assigned(ast.NodeVisitor):
    """names bound in a statement list (this scope only) and attribute targets"""

    def __init__(self):
        self.names, self.attrs, self.declared = [], [], set()
        self.bad = None

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Store):
            s = ast.unparse(node)
            if s not in self.attrs:
                self.attrs.append(s)
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.NamedExpr):
                self.bad = "walrus"

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_NamedExpr(self, node):
        self.add(node.target.id)
        self.visit(node.value)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Global(self, node):
        self.declared.update(node.names)

    visit_Nonlocal = visit_Global


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v


class _LoopExits(ast.NodeTransformer):
    """continue/break/return of the outlined body -> tagged returns"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        node.orelse = [self.visit(s) for s in node.orelse]
        return node

    def visit_While(self, node):
        return self.visit_For(node)

    def visit_Continue(self, node):
        return node if self.depth else ast.parse("return _pyvc_.CONT").body[0]

    def visit_Break(self, node):
        return node if self.depth else ast.parse("return _pyvc_.BREAK").body[0]

    def visit_Return(self, node):
        r = ast.parse("return _pyvc_.Ret(None)").body[0]
        if node.value is not None:
            r.value.args = [node.value]
        return r


def has_yield(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


def _copy(node):
    import copy

    return copy.deepcopy(node)


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []  # enclosing function names
        self.nloop = [0]
        self.uid = 0
        self.in_func = 0
        self.globals_ = [set()]

    # -- scopes
    def _func(self, node):
        self.stack.append(node.name)
        self.nloop.append(0)
        self.in_func += 1
        decl = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                decl.update(s.names)
        self.globals_.append(decl)
        # decorators / defaults are evaluated in the enclosing scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._stmts(node.body)
        self.globals_.pop()
        self.in_func -= 1
        self.nloop.pop()
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        infunc, self.in_func = self.in_func, 0
        node.body = self._stmts(node.body)
        self.in_func = infunc
        self.stack.pop()
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v:
                setattr(node, f, self._stmts(v))
        for field, old in ast.iter_fields(node):
            if field in ("body", "orelse", "finalbody") and isinstance(old, list):
                continue
            if isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                    new.append(x)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # -- loops
    def _accessors(self, w, uid, extra=()):
        """source of get/set closures over the assigned names and attributes"""
        decl = self.globals_[-1]
        names = [n for n in w.names if n not in extra]
        nl = [n for n in names if n not in decl]
        gl = [n for n in names if n in decl]
        get = ", ".join(
            [f"({n!r}, lambda: {n})" for n in names] + [f"({a!r}, lambda: {a})" for a in w.attrs]
        )
        src = f"def _pv_set{uid}(_pv_d):\n"
        if nl:
            src += "    nonlocal " + ", ".join(nl) + "\n"
        if gl:
            src += "    global " + ", ".join(gl) + "\n"
        for n in names + w.attrs:
            src += f"    if {n!r} in _pv_d: {n} = _pv_d[{n!r}]\n"
        src += "    pass\n"
        return f"[{get}]", src, nl, gl

    def visit_For(self, node):
        self.nloop[-1] += 1
        ordinal = self.nloop[-1]
        if not self.in_func or node.orelse or has_yield(node.body):
            return self.generic_visit(node)
        self.uid += 1
        uid = self.uid
        w = assigned([ast.Assign(targets=[_copy(node.target)], value=ast.Constant(0))] + node.body)
        if w.bad or w.declared:
            return self.generic_visit(node)
        it = self.visit(node.iter)
        body = self._stmts(node.body)
        key = f"{self.modname}:{'.'.join(self.stack)}#{ordinal}"
        get, setsrc, nl, gl = self._accessors(w, uid)
        sym_body = [_LoopExits().visit(_copy(s)) for s in body]
        fn = ast.parse(f"def _pv_body{uid}(_pv_x{uid}):\n    pass").body[0]
        pre = []
        if nl:
            pre.append(ast.Nonlocal(names=list(nl)))
        if gl:
            pre.append(ast.Global(names=list(gl)))
        asg = ast.Assign(targets=[_copy(node.target)], value=ast.Name(f"_pv_x{uid}", ast.Load()))
        fn.body = pre + [asg] + sym_body
        call = ast.parse(
            f"_pv_r{uid} = _pyvc_.sym_for(_pv_it{uid}, _pv_body{uid}, {get}, _pv_set{uid}, {key!r})\n"
            f"if isinstance(_pv_r{uid}, _pyvc_.Ret):\n    return _pv_r{uid}.v\n"
        ).body
        setdef = ast.parse(setsrc).body[0]
        conc = ast.For(target=node.target, iter=ast.Name(f"_pv_it{uid}", ast.Load()), body=body, orelse=[])
        disp = ast.If(
            test=ast.parse(f"_pyvc_.is_symiter(_pv_it{uid})", mode="eval").body,
            body=[fn, setdef] + call,
            orelse=[conc],
        )
        first = ast.Assign(
            targets=[ast.Name(f"_pv_it{uid}", ast.Store())],
            value=ast.Call(ast.parse("_pyvc_.loop_iter", mode="eval").body, [it], []),
        )
        out = [first, disp]
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def visit_While(self, node):
        self.nloop[-1] += 1
        ordinal = self.nloop[-1]
        if not self.in_func or node.orelse or has_yield(node.body):
            return self.generic_visit(node)
        self.uid += 1
        uid = self.uid
        w = assigned(node.body)
        key = f"{self.modname}:{'.'.join(self.stack)}#{ordinal}"
        test = self.visit(node.test)
        body = self._stmts(node.body)
        if w.bad or w.declared:
            node.test, node.body = test, body
            return node
        get, setsrc, nl, gl = self._accessors(w, uid)
        setdef = ast.parse(setsrc).body[0]
        sym_body = [_LoopExits().visit(_copy(s)) for s in body]
        fn = ast.parse(f"def _pv_body{uid}():\n    pass").body[0]
        pre = []
        if nl:
            pre.append(ast.Nonlocal(names=list(nl)))
        if gl:
            pre.append(ast.Global(names=list(gl)))
        fn.body = pre + sym_body
        tst = ast.parse(f"def _pv_test{uid}():\n    return 0").body[0]
        tst.body[0].value = _copy(test)
        call = ast.parse(
            f"_pv_r{uid} = _pyvc_.cut_while(_pv_test{uid}, _pv_body{uid}, {get}, _pv_set{uid}, {key!r})\n"
            f"if isinstance(_pv_r{uid}, _pyvc_.Ret):\n    return _pv_r{uid}.v\n"
        ).body
        node.test, node.body = test, body
        disp = ast.If(
            test=ast.parse(f"_pyvc_.has_contract({key!r})", mode="eval").body,
            body=[fn, tst, setdef] + call,
            orelse=[node],
        )
        ast.copy_location(disp, node)
        ast.fix_missing_locations(disp)
        return disp

    # -- comprehensions
    def _comp(self, node, kind):
        if any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        first_iter = self.visit(node.generators[0].iter)

        def lam(uid, expr, gen):
            """lambda __x: [expr for target in (__x,)][0]"""
            lc = ast.ListComp(
                elt=expr,
                generators=[
                    ast.comprehension(
                        target=_copy(gen.target),
                        iter=ast.Tuple([ast.Name(f"_pv_c{uid}", ast.Load())], ast.Load()),
                        ifs=[],
                        is_async=0,
                    )
                ],
            )
            sub = ast.Subscript(lc, ast.Constant(0), ast.Load())
            return ast.Lambda(
                args=ast.arguments([], [ast.arg(f"_pv_c{uid}")], None, [], [], None, []), body=sub
            )

        def build(gens, it, level):
            self.uid += 1
            uid = self.uid
            g = gens[0]
            conds = [self.visit(_copy(c)) for c in g.ifs]
            cond = ast.Constant(None)
            if conds:
                c = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
                cond = lam(uid, c, g)
            if len(gens) == 1:
                if kind == "dict":
                    elt = ast.Tuple([self.visit(_copy(node.key)), self.visit(_copy(node.value))], ast.Load())
                else:
                    elt = self.visit(_copy(node.elt))
                inner = lam(uid, elt, g)
                k = kind if level == 0 else "list"
            else:
                inner = lam(uid, build(gens[1:], self.visit(_copy(gens[1].iter)), level + 1), g)
                k = ("flat" + kind) if level == 0 else "flatlist"
            return ast.Call(
                ast.parse("_pyvc_.comp", mode="eval").body,
                [ast.Constant(k), it, cond, inner],
                [],
            )

        r = build(node.generators, first_iter, 0)
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r

    def _ok(self):
        return self.in_func > 0

    def visit_ListComp(self, node):
        return self._comp(node, "list") if self._ok() else node

    def visit_SetComp(self, node):
        return self._comp(node, "set") if self._ok() else node

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen") if self._ok() else node

    def visit_DictComp(self, node):
        return self._comp(node, "dict") if self._ok() else node

    def visit_Lambda(self, node):
        self.in_func += 1
        self.globals_.append(set())
        node.body = self.visit(node.body)
        self.globals_.pop()
        self.in_func -= 1
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if self._ok() and isinstance(node.ctx, ast.Load) and not node.elts:
            return ast.copy_location(ast.parse("_pyvc_.mklist()", mode="eval").body, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if (self._ok() and isinstance(node.ctx, ast.Load)
                and isinstance(node.slice, (ast.Name, ast.BinOp, ast.Call, ast.Attribute, ast.Subscript))):
            r = ast.Call(ast.parse("_pyvc_.getitem", mode="eval").body, [node.value, node.slice], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self._ok() and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            r = ast.Call(ast.parse("_pyvc_.strmod", mode="eval").body, [node.left, node.right], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_JoinedStr(self, node):
        if not self._ok():
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = v.format_spec
                fv = ast.JoinedStr([ast.FormattedValue(ast.Name("_pv_p", ast.Load()), v.conversion, spec)])
                l = ast.Lambda(args=ast.arguments([], [ast.arg("_pv_p")], None, [], [], None, []), body=fv)
                parts.append(ast.Tuple([val, l], ast.Load()))
        r = ast.Call(ast.parse("_pyvc_.fstr", mode="eval").body, parts, [])
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "float", "bool", "list", "tuple", "str", "set") and self._ok():
            node.func = ast.copy_location(ast.parse(f"_pyvc_.CALLS['{node.func.id}']", mode="eval").body, node.func)
            ast.fix_missing_locations(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str) and len(node.args) == 1 and self._ok():
            r = ast.Call(ast.parse("_pyvc_.strjoin", mode="eval").body, [node.func.value, node.args[0]], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self._ok() and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
            r = ast.Call(ast.parse(f"_pyvc_.{f}", mode="eval").body, [node.comparators[0], node.left], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node


def rewrite(src, modname, filename):
    tree = ast.parse(src, filename)
    t = Transformer(modname)
    tree.body = t._stmts(tree.body)
    ast.fix_missing_locations(tree)
    return tree
