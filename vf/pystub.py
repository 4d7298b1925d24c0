"""A stand-in for pydantic (not installed here): enough of BaseModel and Field to execute generated
modules and to notice what the real one rejects."""
import types
import typing

MEMBERS = set("""Config construct copy dict fields from_orm json parse_file parse_obj parse_raw schema schema_json
 update_forward_refs validate model_computed_fields model_config model_construct model_copy model_dump model_dump_json
 model_extra model_fields model_fields_set model_json_schema model_parametrized_name model_post_init model_rebuild
 model_validate model_validate_json model_validate_strings""".split())


class FieldInfo:
    def __init__(self, default, alias):
        self.default, self.alias = default, alias


def Field(default=..., *, alias=None):
    return FieldInfo(default, alias)


class Meta(type):
    def __new__(mcls, name, bases, ns):
        if bases:
            for f in ns.get("__annotations__", {}):
                if f in MEMBERS:
                    raise NameError('Field name "%s" shadows a BaseModel attribute' % f)
                if f.startswith("_"):
                    raise NameError("Fields must not use names with leading underscores: %s" % f)
        return super().__new__(mcls, name, bases, ns)


class BaseModel(metaclass=Meta):
    pass


def run(code, prelude=""):
    """Executes a module; returns its namespace. Raises what the module raises."""
    import sys
    mod = types.ModuleType("pydantic")
    mod.BaseModel, mod.Field = BaseModel, Field
    old = sys.modules.get("pydantic")
    sys.modules["pydantic"] = mod
    ns = {"__name__": "generated"}
    try:
        if prelude:
            exec(compile(prelude, "<prelude>", "exec"), ns)
        exec(compile(code, "<generated>", "exec"), ns)
    finally:
        if old is None:
            del sys.modules["pydantic"]
        else:
            sys.modules["pydantic"] = old
    return ns


class RuntimeModule:
    """The declared types as the interpreter evaluated them."""
    lang = "python"
    collapse = True

    def __init__(self, ns):
        self.ns = ns

    def root(self, name):
        from .lang import Malformed
        if name not in self.ns:
            raise Malformed("the root name %s is not defined" % name)
        return self.ns[name]

    def view(self, t):
        from .lang import Field as F, Malformed
        if isinstance(t, typing.ForwardRef):
            t = t.__forward_arg__
        if isinstance(t, str):
            try:
                t = eval(t, dict(self.ns))
            except Exception as e:
                raise Malformed("forward reference %r: %s" % (t, e))
        if t is typing.Any:
            return ("any",)
        if t in (bool, int, float, str):
            return ({bool: "bool", int: "int", float: "float", str: "str"}[t],)
        if isinstance(t, Meta):
            fs = []
            for name, ann in t.__dict__.get("__annotations__", {}).items():
                info = t.__dict__.get(name)
                alias = info.alias if isinstance(info, FieldInfo) and info.alias is not None else name
                fs.append(F(alias, False, ann, name))
            return ("struct", fs, t.__name__)
        o, args = typing.get_origin(t), typing.get_args(t)
        if o is typing.Union and len(args) == 2 and args[1] is type(None):
            return ("nullable", args[0])
        if o is list and len(args) == 1:
            return ("list", args[0])
        if o is tuple:
            return ("tuple", list(args), True)
        if o is dict and len(args) == 2 and args[0] is str:
            return ("map", args[1])
        return ("name", t)

    def parse_type(self, text):
        return text
