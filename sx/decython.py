"""Cython source -> equivalent Python source.

The .pyx/.pxd files of the repository are parsed with Cython's own parser and the resulting tree is
written back as Python, with C-level semantics kept where they are observable: conversions to C
integer types (range checks), truth values of ``bint``, typed arguments, memoryviews, addresses of
buffer elements and calls to external C functions.
"""
import itertools

from Cython.Compiler import ExprNodes as X
from Cython.Compiler import Nodes as N
from Cython.Compiler.TreeFragment import parse_from_strings

INT_TYPES = {
    "Py_ssize_t": (-(2**63), 2**63 - 1),
    "ssize_t": (-(2**63), 2**63 - 1),
    "size_t": (0, 2**64 - 1),
    "uint64_t": (0, 2**64 - 1),
    "int64_t": (-(2**63), 2**63 - 1),
    "uint32_t": (0, 2**32 - 1),
    "int32_t": (-(2**31), 2**31 - 1),
    "int": (-(2**31), 2**31 - 1),
    "long": (-(2**63), 2**63 - 1),
    "long long": (-(2**63), 2**63 - 1),
    "unsigned int": (0, 2**32 - 1),
    "unsigned long": (0, 2**64 - 1),
    "unsigned long long": (0, 2**64 - 1),
    "short": (-(2**15), 2**15 - 1),
    "char": (-128, 127),
    "Py_hash_t": (-(2**63), 2**63 - 1),
}


class Unsupported(Exception):
    pass


class Converter:
    def __init__(self, name, source, is_pxd=False, pxd_attrs=None):
        self.name = name
        self.is_pxd = is_pxd
        # Cython renames private names etc. later; parse only
        self.tree = parse_from_strings(
            name, source, level="module_pxd" if is_pxd else None, initial_pos=None
        )
        self.out = []
        self.ind = 0
        self.tmp = itertools.count()
        self.scopes = [{}]  # C types of local names
        self.attr_types = dict(pxd_attrs or {})  # class attribute name -> C int type
        self.cimports = []  # (module, name, asname)
        self.externs = []  # (python name, C name, header, [argument kinds])
        self.classes = []
        self.funcs = []

    # ------------------------------------------------------------- output
    def line(self, s):
        self.out.append("    " * self.ind + s)

    def convert(self):
        self.stat(self.tree.body)
        return "\n".join(self.out) + "\n"

    def block(self, node):
        self.ind += 1
        n = len(self.out)
        if node is not None:
            self.stat(node)
        if len(self.out) == n:
            self.line("pass")
        self.ind -= 1

    # ------------------------------------------------------------- types
    def ctype(self, base, declarator=None):
        """Describe a C type: ('int', name) | 'bint' | 'double' | 'object' | 'ptr' | ('view', ...) | ('ext', name)"""
        d = declarator
        while d is not None and not isinstance(d, N.CNameDeclaratorNode):
            if isinstance(d, N.CPtrDeclaratorNode):
                return "ptr"
            d = getattr(d, "base", None)
        if base is None:
            return "object"
        if isinstance(base, N.MemoryViewSliceTypeNode):
            elem = self.ctype(base.base_type_node)
            contig = False
            axes = list(base.axes)
            if axes:
                last = axes[-1]
                step = getattr(last, "step", None)
                if isinstance(step, X.IntNode) and step.value == "1":
                    contig = True
            return ("view", len(axes), contig, getattr(base.base_type_node, "name", "object"))
        name = getattr(base, "name", None)
        if name is None:
            # untyped
            return "object"
        if isinstance(base, N.CSimpleBaseTypeNode) and base.is_basic_c_type:
            pre = "unsigned " if base.signed == 0 else ""
            if name == "int" and base.longness:
                name = "long" if base.longness == 1 else "long long"
            if name == "bint":
                return "bint"
            if name in ("double", "float"):
                return "double"
            full = pre + name
            if full in INT_TYPES:
                return ("int", full)
            if name == "complex":
                return "object"
            if name == "void":
                return "void"
            return "object"
        if name == "object":
            return "object"
        if name == "bint":
            return "bint"
        if name in ("double", "float64_t"):
            return "double"
        if name in INT_TYPES:
            return ("int", name)
        mp = list(getattr(base, "module_path", None) or [])
        if mp:
            return "object"
        return ("ext", name)

    def coerce(self, ty, expr):
        if isinstance(ty, tuple) and ty[0] == "int":
            lo, hi = INT_TYPES[ty[1]]
            return f"__cy_int__({expr}, {lo}, {hi}, {ty[1]!r})"
        if ty == "bint":
            return f"__cy_bint__({expr})"
        if ty == "double":
            return f"__cy_double__({expr})"
        if isinstance(ty, tuple) and ty[0] == "view":
            return f"__cy_view__({expr}, {ty[1]}, {ty[2]}, {ty[3]!r})"
        if isinstance(ty, tuple) and ty[0] == "ext":
            return f"__cy_ext__({expr}, {ty[1]})"
        return expr

    def vartype(self, name):
        return self.scopes[-1].get(name)

    # ------------------------------------------------------------- statements
    def stat(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            for k in type(n).__mro__:
                m = getattr(self, "s_" + k.__name__, None)
                if m:
                    break
        if m is None:
            raise Unsupported(f"{self.name}: statement {type(n).__name__} at {n.pos[1:]}")
        return m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CompilerDirectivesNode(self, n):
        self.stat(n.body)

    def s_PassStatNode(self, n):
        self.line("pass")

    def s_ExprStatNode(self, n):
        self.line(self.e(n.expr))

    def s_CTypeDefNode(self, n):
        pass

    def s_CStructOrUnionDefNode(self, n):
        raise Unsupported("struct")

    def s_CImportStatNode(self, n):
        self.cimports.append((n.module_name, None, n.as_name or n.module_name.split(".")[0]))

    def s_FromCImportStatNode(self, n):
        for item in n.imported_names:
            name, as_name = item[1], item[2]
            self.cimports.append((n.module_name, name, as_name or name))
        self.line(f"__cy_cimport__({n.module_name!r}, {[(i[1], i[2] or i[1]) for i in n.imported_names]!r}, globals())")

    def s_CDefExternNode(self, n):
        for st in n.body.stats if isinstance(n.body, N.StatListNode) else [n.body]:
            decls = getattr(st, "declarators", None)
            if decls is None:
                continue
            for d in decls:
                dd = d
                while not isinstance(dd, N.CFuncDeclaratorNode):
                    if not hasattr(dd, "base"):
                        dd = None
                        break
                    dd = dd.base
                if dd is None:
                    continue
                nm = dd.base
                kinds = []
                for a in dd.args:
                    t = self.ctype(a.base_type, a.declarator)
                    kinds.append(t[1] if isinstance(t, tuple) and t[0] == "int" else t if isinstance(t, str) else t[0])
                cname = nm.cname or nm.name
                self.externs.append((nm.name, cname, n.include_file, kinds))
                self.line(f"{nm.name} = __cy_extern__({cname!r}, {n.include_file!r}, {kinds!r})")

    def s_CVarDefNode(self, n):
        in_class = self.classes and self.scopes[-1] is self.classes[-1]
        for d in n.declarators:
            name, default = self.declname(d)
            if isinstance(d, N.CFuncDeclaratorNode) or self.is_func(d):
                continue
            ty = self.ctype(n.base_type, d)
            if in_class:
                self.attr_types[name] = ty
                continue
            self.scopes[-1][name] = ty
            default = default if default is not None else getattr(d, "default", None)
            if default is not None:
                self.line(f"{name} = {self.coerce(ty, self.e(default))}")

    def is_func(self, d):
        while d is not None:
            if isinstance(d, N.CFuncDeclaratorNode):
                return True
            d = getattr(d, "base", None)
        return False

    def declname(self, d):
        default = getattr(d, "default", None)
        while not isinstance(d, N.CNameDeclaratorNode):
            d = d.base
            default = default or getattr(d, "default", None)
        return d.name, default

    def s_CClassDefNode(self, n):
        base = ""
        if getattr(n, "bases", None) is not None and n.bases.args:
            base = "(" + ", ".join(self.e(b) for b in n.bases.args) + ")"
        if n.body is None:
            return
        for dec in n.decorators or []:
            self.line("@" + self.e(dec.decorator))
        self.line(f"class {n.class_name}{base}:")
        self.classes.append({})
        self.scopes.append(self.classes[-1])
        if self.is_pxd:
            self.ind += 1
            self.stat(n.body)
            self.ind -= 1
            self.line("    pass")
        else:
            self.block(n.body)
            # a cdef class is created with its C fields in place (None / 0)
            pass
        self.scopes.pop()
        self.classes.pop()

    def s_PyClassDefNode(self, n):
        base = ""
        if n.bases is not None and getattr(n.bases, "args", None):
            base = ", ".join(self.e(b) for b in n.bases.args)
        if n.metaclass is not None:
            base += (", " if base else "") + "metaclass=" + self.e(n.metaclass)
        for dec in n.decorators or []:
            self.line("@" + self.e(dec.decorator))
        self.line(f"class {n.name}({base}):")
        self.scopes.append({})
        if n.doc_node is not None:
            pass
        self.block(n.body)
        self.scopes.pop()

    def args(self, n, args):
        """(signature text, list of coercion lines)"""
        parts, lines = [], []
        seen_default = False
        npos = getattr(n, "num_posonly_args", 0)
        kwonly_started = False
        star = getattr(n, "star_arg", None)
        for i, a in enumerate(args):
            kw = getattr(a, "kw_only", 0)
            if kw and not kwonly_started:
                kwonly_started = True
                parts.append("*" + star.name if star else "*")
                star_done = True
            if isinstance(a.declarator, N.CNameDeclaratorNode) and not a.declarator.name:
                # `cdef f(x)`: the "type" is the name
                name = a.base_type.name
                ty = "object"
            else:
                name, _ = self.declname(a.declarator)
                ty = self.ctype(a.base_type, a.declarator) if not self.untyped(a) else "object"
            ann = getattr(a, "annotation", None)
            if ty == "object" and ann is not None:
                ty = self.annot(ann)
            default = ""
            if a.default is not None:
                default = "=" + self.e(a.default)
            parts.append(name + default)
            if npos and i + 1 == npos:
                parts.append("/")
            self.scopes[-1][name] = ty if ty != ("list",) else "object"
            if ty == ("list",):
                lines.append(f"__cy_list__({name})")
                continue
            c = self.coerce(ty, name)
            if c != name:
                lines.append(f"{name} = {c}")
        if star and not kwonly_started:
            parts.append("*" + star.name)
        ss = getattr(n, "starstar_arg", None)
        if ss:
            parts.append("**" + ss.name)
        return ", ".join(parts), lines

    def untyped(self, a):
        bt = a.base_type
        return isinstance(bt, N.CSimpleBaseTypeNode) and (bt.name is None)

    def annot(self, ann):
        """Cython 3 uses some annotations as types."""
        s = getattr(ann, "string", None)
        text = s.value if s is not None else ""
        text = str(text).replace(" ", "")
        if text == "np.ndarray" and any(m == "numpy" for m, _, _ in self.cimports):
            return ("ext", "np.ndarray")
        if text == "list" or text.startswith("list["):
            return ("list",)
        return "object"

    def s_DefNode(self, n):
        self.func(n, n.name, n.args, None, n.body, n.decorators, getattr(n, "is_async_def", False))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ptr = False
        while not isinstance(d, N.CFuncDeclaratorNode):
            ptr = ptr or isinstance(d, N.CPtrDeclaratorNode)
            d = d.base
        name = d.base.name
        ret = "object" if ptr else self.ctype(n.base_type)
        if isinstance(ret, tuple) and ret[0] == "ext":
            ret = "object"
        n.star_arg = n.starstar_arg = None
        self.func(n, name, d.args, ret, n.body, getattr(n, "decorators", None), False)

    def func(self, n, name, args, ret, body, decorators, is_async):
        if is_async:
            raise Unsupported("async")
        self.funcs.append(name)
        self.scopes.append({})
        # methods of cdef classes: the untyped first argument is self
        sig, lines = self.args(n, args)
        for dec in decorators or []:
            self.line("@" + self.e(dec.decorator))
        rt = ret is not None and ret not in ("object", "void")
        if rt:
            self.line(f"@__cy_ret__(lambda __r__: {self.coerce(ret, '__r__')})")
        self.line(f"def {name}({sig}):")
        self.ind += 1
        for ln in lines:
            self.line(ln)
        n0 = len(self.out)
        if body is not None:
            self.stat(body)
        if len(self.out) == n0:
            self.line("pass")
        self.ind -= 1
        self.scopes.pop()

    def target_assign(self, lhs, rhs_text):
        """Assignment of a Python expression text to a target."""
        if isinstance(lhs, X.NameNode):
            ty = self.vartype(lhs.name)
            return f"{lhs.name} = {self.coerce(ty, rhs_text) if ty else rhs_text}"
        if isinstance(lhs, X.AttributeNode):
            ty = self.attr_types.get(lhs.attribute)
            return f"{self.e(lhs)} = {self.coerce(ty, rhs_text) if ty else rhs_text}"
        return f"{self.e(lhs)} = {rhs_text}"

    def s_SingleAssignmentNode(self, n):
        r = n.rhs
        if isinstance(r, X.ImportNode):
            return self.imp(r, n.lhs.name)
        if isinstance(n.lhs, (X.TupleNode, X.ListNode)):
            self.line(f"{self.e(n.lhs)} = {self.e(r)}")
            self.retype(n.lhs)
            return
        self.line(self.target_assign(n.lhs, self.e(r)))

    def retype(self, lhs):
        for a in lhs.args:
            if isinstance(a, X.NameNode) and self.vartype(a.name) not in (None, "object", "ptr"):
                self.line(f"{a.name} = {self.coerce(self.vartype(a.name), a.name)}")

    def s_CascadedAssignmentNode(self, n):
        t = f"__t{next(self.tmp)}"
        self.line(f"{t} = {self.e(n.rhs)}")
        # Python assigns left to right; Cython keeps that order
        for lhs in n.lhs_list:
            self.line(self.target_assign(lhs, t))

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        lhs = n.lhs
        ty = None
        if isinstance(lhs, X.NameNode):
            ty = self.vartype(lhs.name)
        elif isinstance(lhs, X.AttributeNode):
            ty = self.attr_types.get(lhs.attribute)
        if ty is not None and ty not in ("object", "ptr"):
            self.line(f"{self.e(lhs)} = {self.coerce(ty, f'({self.e(lhs)}) {op} ({self.e(n.rhs)})')}")
        else:
            self.line(f"{self.e(lhs)} {op}= {self.e(n.rhs)}")

    def imp(self, r, asname):
        mod = r.module_name.value if hasattr(r.module_name, "value") else str(r.module_name)
        if asname == mod.split(".")[0] and "." in mod:
            self.line(f"import {mod}")
        elif asname == mod:
            self.line(f"import {mod}")
        else:
            self.line(f"import {mod} as {asname}")

    def s_FromImportStatNode(self, n):
        mod = n.module
        name = mod.module_name.value if hasattr(mod.module_name, "value") else str(mod.module_name)
        lvl = "." * (mod.level if mod.level and mod.level > 0 else 0)
        if getattr(n, "import_star", 0) or any(i[0] == "*" for i in n.items):
            self.line(f"from {lvl}{name} import *")
            return
        items = []
        for nm, target in n.items:
            items.append(f"{nm} as {target.name}" if target.name != nm else str(nm))
        self.line(f"from {lvl}{name} import {', '.join(items)}")

    def s_ReturnStatNode(self, n):
        self.line("return" + (" " + self.e(n.value) if n.value is not None else ""))

    def s_RaiseStatNode(self, n):
        s = "raise"
        if n.exc_type is not None:
            s += " " + self.e(n.exc_type)
            if n.exc_value is not None:
                s += "(" + self.e(n.exc_value) + ")"
            if n.cause is not None:
                s += " from " + self.e(n.cause)
        self.line(s)

    def s_ReraiseStatNode(self, n):
        self.line("raise")

    def s_AssertStatNode(self, n):
        cond = self.e(n.condition)
        v = getattr(n, "value", None)
        if v is None and getattr(n, "exception", None) is not None:
            ex = n.exception
            v = ex.exc_value
            if isinstance(v, X.TupleNode) and len(v.args) == 1:
                v = v.args[0]
        self.line(f"assert {cond}" + (f", {self.e(v)}" if v is not None else ""))

    def s_DelStatNode(self, n):
        self.line("del " + ", ".join(self.e(a) for a in n.args))

    def s_GlobalNode(self, n):
        self.line("global " + ", ".join(n.names))

    def s_NonlocalNode(self, n):
        self.line("nonlocal " + ", ".join(n.names))

    def s_BreakStatNode(self, n):
        self.line("break")

    def s_ContinueStatNode(self, n):
        self.line("continue")

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.line(f"{kw} {self.e(c.condition)}:")
            self.block(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.line("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.line(f"while {self.e(n.condition)}:")
        self.block(n.body)
        if n.else_clause is not None:
            self.line("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        self.line(f"for {self.e(n.target)} in {self.e(n.iterator.sequence)}:")
        self.ind += 1
        if isinstance(n.target, X.NameNode):
            ty = self.vartype(n.target.name)
            if ty is not None and self.coerce(ty, "x") != "x":
                self.line(f"{n.target.name} = {self.coerce(ty, n.target.name)}")
        elif isinstance(n.target, (X.TupleNode, X.ListNode)):
            self.retype(n.target)
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.line("else:")
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        raise Unsupported("for-from")

    def s_TryExceptStatNode(self, n):
        self.line("try:")
        self.block(n.body)
        for c in n.except_clauses:
            pat = ""
            if c.pattern:
                ps = [self.e(p) for p in c.pattern]
                pat = " " + (ps[0] if len(ps) == 1 else "(" + ", ".join(ps) + ")")
                if c.target is not None:
                    pat += " as " + self.e(c.target)
            self.line("except" + pat + ":")
            self.block(c.body)
        if n.else_clause is not None:
            self.line("else:")
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.line("try:")
        self.block(n.body)
        self.line("finally:")
        self.block(n.finally_clause)

    def s_WithStatNode(self, n):
        mgr = n.manager
        mgr = getattr(mgr, "arg", mgr)
        t = f" as {self.e(n.target)}" if n.target is not None else ""
        self.line(f"with {self.e(mgr)}{t}:")
        self.block(n.body)

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_AnnotationNode(self, n):
        pass

    # ------------------------------------------------------------- expressions
    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for k in type(n).__mro__:
                m = getattr(self, "e_" + k.__name__, None)
                if m:
                    break
        if m is None:
            raise Unsupported(f"{self.name}: expression {type(n).__name__} at {n.pos[1:]}")
        return m(n)

    def e_IntNode(self, n):
        return f"{n.value}"

    def e_FloatNode(self, n):
        return f"{n.value}"

    def e_ImagNode(self, n):
        return f"{n.value}j"

    def e_NoneNode(self, n):
        return "None"

    def e_NullNode(self, n):
        return "__cy_NULL__"

    def e_EllipsisNode(self, n):
        return "..."

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    def e_BytesNode(self, n):
        return repr(bytes(n.value.byteencode() if hasattr(n.value, "byteencode") else n.value))

    def e_StringNode(self, n):
        return repr(str(n.unicode_value if n.unicode_value is not None else n.value))

    def e_IdentifierStringNode(self, n):
        return repr(str(n.value))

    def e_NameNode(self, n):
        if n.name == "NULL":
            return "__cy_NULL__"
        return str(n.name)

    def e_AttributeNode(self, n):
        return f"{self.p(n.obj)}.{n.attribute}"

    def p(self, n):
        s = self.e(n)
        if isinstance(n, (X.NameNode, X.AttributeNode, X.SimpleCallNode, X.GeneralCallNode, X.IndexNode,
                          X.UnicodeNode, X.ListNode, X.DictNode)):
            return s
        return f"({s})"

    def e_SimpleCallNode(self, n):
        return f"{self.p(n.function)}({', '.join(self.e(a) for a in n.args)})"

    def e_GeneralCallNode(self, n):
        parts = self.posargs(n.positional_args) + self.kwargs(n.keyword_args)
        return f"{self.p(n.function)}({', '.join(parts)})"

    def posargs(self, n):
        if n is None:
            return []
        if isinstance(n, X.TupleNode):
            return [self.e(a) for a in n.args]
        if isinstance(n, X.AsTupleNode):
            return ["*" + self.p(n.arg)]
        if isinstance(n, X.MergedSequenceNode):
            out = []
            for a in n.args:
                if isinstance(a, (X.TupleNode, X.ListNode, X.SetNode)):
                    out += [self.e(x) for x in a.args]
                else:
                    out.append("*" + self.p(getattr(a, "arg", a)))
            return out
        if isinstance(n, X.BinopNode):
            return self.posargs(n.operand1) + self.posargs(n.operand2)
        return ["*" + self.p(n)]

    def kwargs(self, n):
        if n is None:
            return []
        if isinstance(n, X.DictNode):
            return [f"{i.key.value}={self.e(i.value)}" for i in n.key_value_pairs]
        if isinstance(n, X.MergedDictNode):
            out = []
            for a in n.keyword_args:
                out += self.kwargs(a)
            return out
        return ["**" + self.p(n)]

    def e_MergedDictNode(self, n):
        parts = []
        for a in n.keyword_args:
            if isinstance(a, X.DictNode):
                parts += [f"{self.e(i.key)}: {self.e(i.value)}" for i in a.key_value_pairs]
            else:
                parts.append("**" + self.p(a))
        return "{" + ", ".join(parts) + "}"

    def e_MergedSequenceNode(self, n):
        inner = ", ".join(self.posargs(n))
        t = getattr(n.type, "name", "tuple")
        return {"list": f"[{inner}]", "set": "{" + inner + "}"}.get(t, f"({inner},)")

    def e_AsTupleNode(self, n):
        return f"tuple({self.e(n.arg)})"

    def e_StarredUnpackingNode(self, n):
        return "*" + self.p(n.target)

    def e_TupleNode(self, n):
        if not n.args:
            return "()"
        return "(" + ", ".join(self.e(a) for a in n.args) + ",)"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.e(a) for a in n.args) + "]"

    def e_SetNode(self, n):
        return "{" + ", ".join(self.e(a) for a in n.args) + "}" if n.args else "set()"

    def e_DictNode(self, n):
        return "{" + ", ".join(f"{self.e(i.key)}: {self.e(i.value)}" for i in n.key_value_pairs) + "}"

    def e_NotNode(self, n):
        return f"(not {self.p(n.operand)})"

    def e_UnopNode(self, n):
        return f"({n.operator}{self.p(n.operand)})"

    def e_BinopNode(self, n):
        return f"({self.p(n.operand1)} {n.operator} {self.p(n.operand2)})"

    def e_BoolBinopNode(self, n):
        return f"({self.p(n.operand1)} {n.operator} {self.p(n.operand2)})"

    def e_PrimaryCmpNode(self, n):
        s = f"({self.p(n.operand1)} {n.operator.replace('_', ' ')} {self.p(n.operand2)}"
        c = n.cascade
        while c is not None:
            s += f" {c.operator.replace('_', ' ')} {self.p(c.operand2)}"
            c = c.cascade
        return s + ")"

    def e_CondExprNode(self, n):
        return f"({self.p(n.true_val)} if {self.p(n.condition)} else {self.p(n.false_val)})"

    def index(self, i):
        if isinstance(i, X.TupleNode):
            return ", ".join(self.index(a) for a in i.args) + ("," if len(i.args) == 1 else "")
        if isinstance(i, X.SliceNode):
            def g(x):
                return "" if x is None or isinstance(x, X.NoneNode) else self.p(x)

            return f"{g(i.start)}:{g(i.stop)}" + (f":{g(i.step)}" if not isinstance(i.step, X.NoneNode) else "")
        return self.e(i)

    def e_IndexNode(self, n):
        return f"{self.p(n.base)}[{self.index(n.index)}]"

    def e_SliceIndexNode(self, n):
        a = self.p(n.start) if n.start is not None else ""
        b = self.p(n.stop) if n.stop is not None else ""
        return f"{self.p(n.base)}[{a}:{b}]"

    def e_SliceNode(self, n):
        return f"slice({self.e(n.start)}, {self.e(n.stop)}, {self.e(n.step)})"

    def e_AmpersandNode(self, n):
        o = n.operand
        if isinstance(o, X.IndexNode):
            return f"__cy_addr__({self.p(o.base)}, ({self.index(o.index)},))"
        raise Unsupported("address of " + type(o).__name__)

    def e_TypecastNode(self, n):
        ty = self.ctype(n.base_type, n.declarator)
        inner = self.e(n.operand)
        if isinstance(ty, tuple) and ty[0] == "int":
            lo, hi = INT_TYPES[ty[1]]
            return f"__cy_castint__({inner}, {lo}, {hi})"
        return inner  # <object>ptr and pointer casts keep the referenced value

    def e_JoinedStrNode(self, n):
        parts = []
        for v in n.values:
            parts.append(self.e(v) if isinstance(v, X.UnicodeNode) else self.e(v))
        return "''.join((" + ", ".join(parts) + ",))"

    def e_FormattedValueNode(self, n):
        conv = {"r": "repr", "s": "str", "a": "ascii"}.get(n.conversion_char or "")
        v = self.e(n.value)
        if conv:
            v = f"{conv}({v})"
        spec = self.e(n.format_spec) if n.format_spec is not None else "''"
        return f"format({v}, {spec})"

    def e_LambdaNode(self, n):
        self.scopes.append({})
        sig, _ = self.args(n, n.args)
        body = n.result_expr
        s = f"(lambda {sig}: {self.e(body)})"
        self.scopes.pop()
        return s

    def e_YieldExprNode(self, n):
        return f"(yield {self.e(n.arg)})" if n.arg is not None else "(yield)"

    def e_YieldFromExprNode(self, n):
        return f"(yield from {self.e(n.arg)})"

    def e_AssignmentExpressionNode(self, n):
        raise Unsupported("walrus")

    # comprehensions / generator expressions
    def comp_clauses(self, loop):
        """returns (clauses text, innermost node)"""
        out = ""
        node = loop
        while True:
            if isinstance(node, N.ForInStatNode) or isinstance(node, N._ForInStatNode):
                seq = node.iterator.sequence
                out += f" for {self.e(node.target)} in {self.p(seq)}"
                node = node.body
            elif isinstance(node, N.IfStatNode):
                out += f" if {self.p(node.if_clauses[0].condition)}"
                node = node.if_clauses[0].body
            elif isinstance(node, N.StatListNode) and len(node.stats) == 1:
                node = node.stats[0]
            else:
                return out, node

    def e_ComprehensionNode(self, n):
        cl, node = self.comp_clauses(n.loop)
        if isinstance(node, N.ExprStatNode):
            node = node.expr
        t = n.type.name if hasattr(n.type, "name") else str(n.type)
        if isinstance(node, X.DictComprehensionAppendNode):
            it = node.dict_item if hasattr(node, "dict_item") else node
            return "{" + f"{self.e(it.key)}: {self.e(it.value)}{cl}" + "}"
        o, c = ("{", "}") if "set" in t else ("[", "]")
        return f"{o}{self.e(node.expr)}{cl}{c}"

    def e_GeneratorExpressionNode(self, n):
        loop = n.loop if getattr(n, "loop", None) is not None else n.def_node.gbody.body
        cl, node = self.comp_clauses(loop)
        if isinstance(node, N.ExprStatNode):
            node = node.expr
        arg = node.arg if isinstance(node, X.YieldExprNode) else node.expr
        return f"({self.e(arg)}{cl})"

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e(n.gen)

    def e_ImportNode(self, n):
        raise Unsupported("import expression")


def convert(name, source, is_pxd=False, pxd_attrs=None):
    c = Converter(name, source, is_pxd, pxd_attrs)
    text = c.convert()
    return text, c
