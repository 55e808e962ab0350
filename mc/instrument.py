# instrument.py - load the modules of the repository with scheduling points.
# The source is parsed, points are inserted in the bodies of functions, and the
# result is compiled in place of the source: nothing is written, and what a
# module computes is unchanged.
#   __mc_pt__(number)      before every statement
#   __mc_px__(v, number)   on the value of every assignment, return and call, that is between
#           the reading of old data and the writing of new
# Jython's sys.settrace would do for single threads, but it holds the import
# lock while a trace function runs.
import sys, os, ast, imp
import mclib


_count = [0]


def _number(node):
    """ Each point has a number """
    _count[0] += 1
    return ast.copy_location(ast.Num(n=_count[0]), node)


def _wrap(value):
    return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__mc_px__', ctx=ast.Load()), value),
                                      args=[value, _number(value)], keywords=[], starargs=None, kwargs=None), value)


class Points(ast.NodeTransformer):
    depth = 0

    def _body(self, stmts):
        out = []
        for k, s in enumerate(stmts):
            doc = k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Str)
            if not doc and not isinstance(s, ast.Global):
                name = ast.copy_location(ast.Name(id='__mc_pt__', ctx=ast.Load()), s)
                call = ast.copy_location(ast.Call(func=name, args=[_number(s)], keywords=[], starargs=None, kwargs=None), s)
                out.append(ast.copy_location(ast.Expr(value=call), s))
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        node.body = self._body(node.body)
        return node

    def _block(self, node):
        self.generic_visit(node)
        if self.depth:
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(node, field, None)
                if isinstance(stmts, list) and stmts:
                    setattr(node, field, self._body(stmts))
        return node

    visit_For = visit_While = visit_If = visit_With = visit_TryExcept = visit_TryFinally = visit_ExceptHandler = _block

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        return _wrap(node) if self.depth else node

    def _valued(self, node):
        self.generic_visit(node)
        if self.depth and node.value is not None and not (isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') == '__mc_px__'):
            node.value = _wrap(node.value)
        return node

    visit_Assign = visit_AugAssign = visit_Return = _valued


statement = value = None      # the functions called at the points


class Importer(object):
    """ Finds the modules of the repository """
    def find_module(self, name, path=None):
        if not name.startswith('cryptopy.'):
            return None
        base = os.path.join(mclib.REPO, *name.split('.')[1:])
        if os.path.isfile(base + '.py'):
            return Loader(base + '.py', False)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return Loader(os.path.join(base, '__init__.py'), True)
        return None


_code = {}


class Loader(object):
    def __init__(self, path, package):
        self.path, self.package = path, package

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        if self.path not in _code:
            tree = ast.parse(open(self.path, 'U').read(), self.path)
            if statement is not None:
                tree = Points().visit(tree)
            _code[self.path] = compile(tree, self.path, 'exec')
        m = imp.new_module(name)
        m.__file__, m.__loader__ = self.path, self
        m.__name__ = name
        if self.package:
            m.__path__ = [os.path.dirname(self.path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        m.__mc_pt__, m.__mc_px__ = statement, value
        sys.modules[name] = m
        try:
            exec _code[self.path] in m.__dict__
        except:
            del sys.modules[name]
            raise
        return m


def install(on_statement=None, on_value=None):
    """ on_statement(number), on_value(v, number) -> v; without them modules are
    loaded as they are, but compiled only once for all the times they are loaded """
    global statement, value
    statement, value = on_statement, on_value
    sys.meta_path.insert(0, Importer())
