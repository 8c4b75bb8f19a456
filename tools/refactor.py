"""refactor.py KIND DIR [file...]: rewrites the sources under DIR/templatefitter
without changing what they do, to look for false alarms of the checks.

KINDs  ret   return e            -> result = e; return result
       impl  method/function     -> wrapper around a new helper with the body
       comp  list comprehension  -> loop appending to a list (statement level)
       inv   if c: A else: B     -> if not (c): B else: A
       elif_ if c: ..return; R   -> if c: ..return else: R
       enum  enumerate loop      -> counter
       args  call arguments      -> temporaries
       cond  x if c else y       -> if statement (assignments, returns)
       aug   a += b (names)      -> a = a + b
       while for x in list       -> loop over range(len(...))
       call  body of every loop  -> local function (when it assigns no names)
"""
import ast
import copy
import os
import sys
import warnings
warnings.simplefilter("ignore")


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p="tmp"):
        Base.n += 1
        return "%s_%d" % (p, Base.n)

    def body(self, stmts):
        out = []
        for s in stmts:
            out += self.one(s)
        return out

    def one(self, s):
        """a statement -> list of statements, recursing into blocks"""
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, f, self.body(b))
        for h in getattr(s, "handlers", []):
            h.body = self.body(h.body)
        return self.stmt(s)

    def stmt(self, s):
        return [s]

    def tree(self, t):
        t.body = self.body(t.body)
        return t


class Ret(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            v = self.fresh("result")
            return [ast.Assign([name(v, ast.Store())], s.value), ast.Return(name(v))]
        return [s]


class Impl(Base):
    def one(self, s):
        if isinstance(s, ast.ClassDef):
            s.body = self.klass(s.body)
            return [s]
        return [s]

    def klass(self, stmts):
        out = []
        for s in stmts:
            if not isinstance(s, ast.FunctionDef) or s.name.startswith("__") and s.name != "__init__" or s.args.kwarg and s.name == "__init__" \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                out.append(s)
                continue
            decs = [ast.unparse(d) for d in s.decorator_list]
            if any("abstract" in d or "jit" in d for d in decs):
                out.append(s)
                continue
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            rest = s.body[len(doc):]
            if not rest:
                out.append(s)
                continue
            static = "staticmethod" in decs
            a = s.args
            names = [x.arg for x in a.posonlyargs + a.args]
            h = copy.deepcopy(s)
            h.name = "_do_%s%d" % (s.name.strip("_"), Base.n)
            Base.n += 1
            h.body = rest
            h.decorator_list = [ast.Name(d, ast.Load()) for d in ("staticmethod", "classmethod") if d in decs]
            for x in ast.walk(h.args):
                if isinstance(x, ast.arguments):
                    x.defaults = []
                    x.kw_defaults = [None] * len(x.kwonlyargs)
            cls = self.cls
            f = ast.Attribute(name(cls if static else names[0]), h.name, ast.Load())
            call = ast.Call(f, [name(n) for n in (names if static else names[1:])] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                            [ast.keyword(k.arg, name(k.arg)) for k in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
            s.body = doc + [ast.Return(call)]
            out += [h, s]
        return out

    def tree(self, t):
        for s in t.body:
            if isinstance(s, ast.ClassDef):
                self.cls = s.name
                s.body = self.klass(s.body)
        return t


class Comp(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and getattr(s, "value", None) is not None:
            pre = []
            outer = self

            class X(ast.NodeTransformer):
                def visit_Lambda(self, n):
                    return n

                def visit_IfExp(self, n):
                    return n

                def visit_GeneratorExp(self, n):
                    return n

                def visit_DictComp(self, n):
                    if len(n.generators) == 1:
                        g = n.generators[0]
                        v = outer.fresh("dict")
                        b = [ast.Assign([ast.Subscript(name(v), n.key, ast.Store())], n.value)]
                        for c in g.ifs:
                            b = [ast.If(c, b, [])]
                        pre.extend([ast.Assign([name(v, ast.Store())], ast.Dict([], [])), ast.For(g.target, g.iter, b, [])])
                        return name(v)
                    return n

                def visit_ListComp(self, n):
                    if len(n.generators) == 1:
                        g = n.generators[0]
                        v = outer.fresh("items")
                        b = [ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [n.elt], []))]
                        for c in g.ifs:
                            b = [ast.If(c, b, [])]
                        pre.extend([ast.Assign([name(v, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, b, [])])
                        return name(v)
                    return n
            s.value = X().visit(s.value)
            return pre + [s]
        return [s]


class Inv(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class Elif(Base):
    def body(self, stmts):
        stmts = Base.body(self, stmts)
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and stmts[i + 1:] \
                    and not any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import)) for x in stmts[i + 1:]):
                s.orelse = stmts[i + 1:]
                return stmts[:i + 1]
        return stmts


class Enum(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" \
                and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            i = s.target.elts[0].id
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                    ast.For(s.target.elts[1], s.iter.args[0], s.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]


class Args(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
            pre = []
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords) or not isinstance(c.func, (ast.Name, ast.Attribute)):
                return [s]
            if isinstance(c.func, ast.Name) and c.func.id == "super":
                return [s]
            for k, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda)) and not any(isinstance(x, (ast.Call,)) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(a)):
                    v = self.fresh("arg")
                    pre.append(ast.Assign([name(v, ast.Store())], a))
                    c.args[k] = name(v)
            for k in c.keywords:
                if not isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                    v = self.fresh("arg")
                    pre.append(ast.Assign([name(v, ast.Store())], k.value))
                    k.value = name(v)
            return pre + [s]
        return [s]


class Cond(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]


class Aug(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]
        return [s]


class While(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, (ast.Name, ast.Tuple)) and not s.orelse:
            xs, i = self.fresh("seq"), self.fresh("i")
            it = s.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and isinstance(it.func.value, ast.Name) and it.func.value.id == "tqdm":
                return [s]
            return [ast.Assign([name(xs, ast.Store())], ast.Call(name("list"), [it], [])),
                    ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(xs)], [])], []),
                            [ast.Assign([s.target], ast.Subscript(name(xs), name(i), ast.Load()))] + s.body, [])]
        return [s]


class Call(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and not any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Yield)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x not in list(ast.walk(s.target))
                                              for x in ast.walk(s)):
            tn = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
            f = self.fresh("step")
            d = ast.FunctionDef(name=f, args=ast.arguments([], [ast.arg(t) for t in tn], None, [], [], None, []), body=s.body, decorator_list=[], type_params=[])
            return [d, ast.For(s.target, s.iter, [ast.Expr(ast.Call(name(f), [name(t) for t in tn], []))], [])]
        return [s]


KINDS = dict(ret=Ret, impl=Impl, comp=Comp, inv=Inv, elif_=Elif, enum=Enum, args=Args, cond=Cond, aug=Aug, call=Call)
KINDS["while"] = While

if __name__ == "__main__":
    kind, d = sys.argv[1:3]
    only = sys.argv[3:]
    for base, _, files in os.walk(os.path.join(d, "templatefitter")):
        for f in sorted(files):
            if not f.endswith(".py") or only and f not in only:
                continue
            p = os.path.join(base, f)
            t = ast.parse(open(p).read())
            for k in kind.split("+"):
                t = KINDS[k]().tree(t)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")
