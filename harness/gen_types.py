#!/usr/bin/env python3
"""Writes a random program using the library: Serialisable classes, RPC objects and lambdas, with an independent statement of
their members, defaults, names and descriptions. Usage: gen_types.py OUT SEED TIER INDEX"""
import json, random, sys

out_path, seed, tier, index = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4]
rnd = random.Random("types-%s-%s-%s" % (seed, tier, index))

INTS = {"int8_t": (-128, 127), "uint8_t": (0, 255), "int16_t": (-2**15, 2**15 - 1), "uint16_t": (0, 2**16 - 1), "int32_t": (-2**31, 2**31 - 1),
        "uint32_t": (0, 2**32 - 1), "int64_t": (-2**63, 2**63 - 1), "uint64_t": (0, 2**63 - 1), "long long": (-2**63, 2**63 - 1), "char": (-128, 127), "int": (-2**31, 2**31 - 1)}
FLAGS = {"int8_t": ["INT_8", "INT_16", "INT_32", "INT_64"], "uint8_t": ["UINT_8", "UINT_16", "INT_32", "UINT_64"], "int16_t": ["INT_16", "INT_32", "INT_64"],
         "uint16_t": ["UINT_16", "UINT_32", "INT_32"], "int32_t": ["INT_32", "INT_64"], "uint32_t": ["UINT_32", "INT_64", "UINT_64"], "float": ["FLOAT_32", "FLOAT_64"]}


def cstr(s):
    r = '"'
    for b in s.encode("utf-8"):
        c = chr(b)
        if c in '"\\':
            r += "\\" + c
        elif 0x20 <= b < 0x7f and c != '?':
            r += c
        else:
            r += "\\%03o" % b
    return r + '"'


def raw(s):
    return "".join("\n\t\t" + cstr(s[i:i + 900]) for i in range(0, len(s), 900)) or '""'


class Type:
    def __init__(self, cpp, desc, zero, literal=None, copyable=True, flags=(), structs=(), flagged=False, is_bool=False):
        self.cpp, self.desc, self.zero, self.literal = cpp, desc, zero, literal
        self.direct = None
        self.copyable, self.flags, self.structs, self.flagged, self.is_bool = copyable, flags, tuple(structs), flagged, is_bool


structs = []  # Type of each declared one


def text_value():
    return rnd.choice(["", "a", "text", "with \"quotes\"", "líne\nbreak\\", "long enough not to fit the small buffer of a string", "\u20ac\U0001f600", "null", "13"])


def prim():
    k = rnd.random()
    if k < 0.5:
        name = rnd.choice(list(INTS))
        low, high = INTS[name]
        def literal():
            v = rnd.choice([low, high, 13, -13 if low < 0 else 13, 1, rnd.randint(low, high), rnd.randint(max(low, -100), min(high, 100))])
            return ("%s(%s)" % (name.replace("long long", "int64_t"), "INT64_MIN" if v == -2**63 else str(v) + ("ll" if abs(v) > 2**31 - 1 else "")), v)
        return Type(name, "number", 0, literal, flags=FLAGS.get(name, ()))
    if k < 0.65:
        name = rnd.choice(["float", "double"])
        def literal():
            v = rnd.choice([0.25, -1.5, 1e10, 1024.0, rnd.randint(-1000, 1000) / 8])
            return ("%s(%r)" % (name, v), v)
        return Type(name, "number", 0.0, literal, flags=FLAGS.get(name, ()))
    if k < 0.78:
        return Type("bool", "boolean", False, lambda: rnd.choice([("true", True), ("false", False)]), is_bool=True)
    def literal():
        v = text_value()
        return ("std::string(%s)" % cstr(v), v)
    return Type("std::string", "string", "", literal)


def make_type(depth=0, for_arg=False, self_name=None):
    k = rnd.random() if depth < 3 else rnd.random() * 0.45
    if k < 0.42:
        return prim()
    if self_name and depth == 0 and k > 0.96:
        # Contains itself
        inner = Type(self_name, self_name, None, structs=[self_name])
        which = rnd.choice(["std::vector<%s>", "std::shared_ptr<%s>", "std::map<std::string, %s>"])
        if "shared" in which:
            return Type(which % self_name, self_name, None, structs=inner.structs)
        return Type(which % self_name, "object" if "map" in which else [self_name], {} if "map" in which else [], structs=inner.structs)
    usable = [s for s in structs if s.copyable or not for_arg]
    if usable and k < 0.52:
        return rnd.choice(usable)
    if k < 0.66:
        inner = make_type(depth + 1, for_arg)
        while inner.is_bool:
            inner = make_type(depth + 1, for_arg)
        kind = rnd.choice(["std::vector", "std::vector", "std::deque"]) if inner.copyable else "std::vector"  # A deque's move can throw
        def literal():
            if inner.literal is None or not inner.copyable:
                return None
            items = [inner.literal() for _ in range(rnd.randint(1, 3))]
            if None in items:
                return None
            return ("%s<%s>{%s}" % (kind, inner.cpp, ", ".join(i[0] for i in items)), [i[1] for i in items])
        return Type("%s<%s>" % (kind, inner.cpp), [inner.desc], [], literal, inner.copyable, structs=inner.structs, flagged=inner.flagged)
    if k < 0.74:
        inner = make_type(depth + 1, for_arg)
        n = rnd.choice([1, 2, 3, 5])
        return Type("std::array<%s, %d>" % (inner.cpp, n), [inner.desc], [inner.zero] * n, None, inner.copyable, structs=inner.structs, flagged=inner.flagged)
    if k < 0.84:
        inner = make_type(depth + 1, for_arg)
        kind = rnd.choice(["std::map", "std::unordered_map"]) if inner.copyable else "std::map"
        def literal():
            if inner.literal is None or not inner.copyable:
                return None
            v = inner.literal()
            if v is None:
                return None
            key = text_value()
            return ("%s<std::string, %s>{{%s, %s}}" % (kind, inner.cpp, cstr(key), v[0]), {key: v[1]})
        return Type("%s<std::string, %s>" % (kind, inner.cpp), "object", {}, literal, inner.copyable, structs=inner.structs, flagged=inner.flagged)
    inner = make_type(depth + 1, for_arg)
    while inner.cpp.startswith(("Bomba::Optional", "std::shared_ptr", "std::unique_ptr")):
        inner = make_type(depth + 1, for_arg)  # An empty optional within an optional has no representation
    kind = rnd.choice(["Bomba::Optional", "std::shared_ptr"] if for_arg else ["Bomba::Optional", "std::shared_ptr", "std::unique_ptr"])
    if kind == "Bomba::Optional" and not inner.copyable:
        kind = "std::shared_ptr"
    def literal():
        if inner.literal is None or kind == "std::unique_ptr" or not inner.copyable:
            return None
        v = inner.literal()
        if v is None:
            return None
        if kind == "std::shared_ptr":
            return ("std::make_shared<%s>(%s)" % (inner.cpp, v[0]), v[1])
        return ("reflect::optional<%s>(%s)" % (inner.cpp, v[0]), v[1])
    made = Type("%s<%s>" % (kind, inner.cpp), inner.desc, None, literal, inner.copyable and kind != "std::unique_ptr", structs=inner.structs, flagged=inner.flagged)
    if kind == "Bomba::Optional":  # A member can be initialised also from the content
        made.direct = lambda: ("std::nullopt", None) if rnd.random() < 0.3 or not inner.literal else inner.literal()
    return made


NAMES = ["id", "idle", "i", "name", "names", "nam", "value", "values", "v", "Value", "with space", "\"quoted\"", "back\\slash", "tab\tbed", "čšž", "\U0001f600", "a", "aa", "aaa", "A",
         "__proto__", "jsonrpc", "method", "params", "result", "error", "null", "true", "0", "10", "-1", "{", "}", "[", ",", ":", "a:b", "a,b", "a/b", "&", "=", "%41", "length", "type", "object",
         "a very long name that does not fit into any small buffer, with a few more words after it to be sure about it", "class", "for", "new\nline", "\u00df", "e", "E1", "-", "+", "'"]
METHOD_NAMES = [n for n in NAMES if "." not in n]


def names(n, pool):
    picked = rnd.sample(pool, n) if rnd.random() < 0.6 else ["m%d" % i for i in range(n)]
    return picked


PLAIN = [("int %s;", "4567"), ("int %s = 7;", "4567"), ("char %s[3];", None), ("char %s;", "'p'"), ("std::string %s;", '"plain"'), ("double %s;", "1.25"), ("void* %s = nullptr;", "reinterpret_cast<void*>(77)"),
         ("int8_t %s = 13;", "-13"), ("int8_t %s = -13;", "13"), ("bool %s;", "true"), ("std::vector<int> %s;", "{1, 2}"), ("uint16_t %s = 0x0d0d;", "0xf3f3"), ("std::optional<int> %s;", "9"),
         ("char %s[11] = {};", None), ("int64_t %s;", "123456789")]

out = ["// Generated by gen_types.py from seed %s, %s, %s" % (seed, tier, index), '#include "reflect.hpp"', ""]
struct_members = {}  # name -> [(key, Type)]


def describe_types(needed, into):
    for s in needed:
        if s in into:
            continue
        into[s] = None
        into[s] = [[k, t.desc] for k, t in struct_members[s]]
        for _, t in struct_members[s]:
            describe_types(t.structs, into)


class Pairs(list):
    """An object with order of members and possible special names"""


def to_json(v):
    if isinstance(v, Pairs):
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + to_json(x) for k, x in v) + "}"
    if isinstance(v, dict):
        return to_json(Pairs(v.items()))
    if isinstance(v, list):
        return "[" + ",".join(to_json(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


throwing_structs = set()


def throwing(t):
    return "std::deque" in t.cpp or any(n in throwing_structs for n in t.structs)


def make_struct(number):
    name = rnd.choice(["Thing", "Item", "s", "Record", "Abc", "Zz", "Thing_"]) + str(number) + rnd.choice(["", "", "x", "_y", "E"])
    if name[0] == "s":
        name = "small" + name[1:]
    n = rnd.choice([1, 2, 3, 4, 5, 6, 8, 10])
    keys = names(n, NAMES)
    lines, fields, plain, members, defaults, constructor = [], [], [], [], [], []
    copyable, flagged = True, False
    plain_chance = rnd.choice([0, 0.2, 0.6])
    def add_plain():
        form, sentinel = rnd.choice(PLAIN)
        var = "plain%d" % len(plain)
        lines.append("\t" + form % var)
        if sentinel is None:
            plain.append("for (char& c : %s) f(c, 'q');" % var)
        else:
            plain.append("f(%s, decltype(%s)(%s));" % (var, var, sentinel))
    types = [make_type(self_name=name) for _ in keys]
    if not all(t.copyable for t in types):  # Containers of itself would pretend to be copyable
        types = [Type("std::shared_ptr<%s>" % name, name, None, structs=[name]) if t.cpp in ("std::vector<%s>" % name, "std::map<std::string, %s>" % name) else t for t in types]
        # Moving a deque can throw, so containers would try to copy the class when growing
        types = [prim() if throwing(t) else t for t in types]
    if any(throwing(t) for t in types):
        throwing_structs.add(name)
    for i, key in enumerate(keys):
        while rnd.random() < plain_chance:
            add_plain()
        t = types[i]
        flag = ""
        if t.flags and rnd.random() < 0.2:
            flag = ", Bomba::SerialisationFlags::" + rnd.choice(t.flags)
            flagged = True
        init, default = "", t.zero
        got = t.literal() if t.literal and rnd.random() < 0.45 else None
        if t.direct and rnd.random() < 0.5:
            got = t.direct()
        if got:
            style = rnd.random()
            if t.cpp == "std::string" and style < 0.3:
                init, default = ".init(3, 'x')", "xxx"
            elif t.cpp.startswith("std::vector<int") and style < 0.5 and "<int64" not in t.cpp:
                init, default = ".init(4, 5)", [5] * 4
            elif style < 0.7:
                init, default = " = " + got[0], got[1]
            else:
                init, default = ".init(%s)" % got[0], got[1]
        elif t.literal and t.copyable and rnd.random() < 0.1:
            got = t.literal()
            if got:
                constructor.append("m%d = %s;" % (i, got[0]))
                default = got[1]
        lines.append("\t%s m%d = key<%s%s>%s;" % (t.cpp, i, cstr(key), flag, init))
        fields.append("f(%s, m%d);" % (cstr(key), i))
        members.append((key, t))
        defaults.append((key, default))
        copyable = copyable and t.copyable
        flagged = flagged or t.flagged
    while rnd.random() < plain_chance:
        add_plain()
    out.append("struct %s : Bomba::Serialisable<%s> {" % (name, name))
    out.extend(lines)
    if constructor:
        out.append("\t%s() { %s }" % (name, " ".join(constructor)))
    out.append("\ttemplate <typename Fn> void fields(Fn f) { %s }" % " ".join(fields))
    out.append("\ttemplate <typename Fn> void plainMembers(Fn f) { %s }" % " ".join(plain))
    out.append("\tconstexpr static bool flagged = %s;" % ("true" if flagged else "false"))
    out.append("};")
    struct_members[name] = members
    whole = Pairs(defaults)
    inner = sorted({s for _, t in members for s in t.structs if s != name})
    t = Type(name, name, whole, None, copyable, structs=[name], flagged=flagged)
    structs.append(t)
    out.append("")


for i in range(8):
    make_struct(i)


def make_signature(parent, identifier):
    """Returns C++ of the lambda, (types, names, omit) of arguments, return type and its description"""
    n = rnd.choice([0, 1, 1, 2, 2, 3, 4, 6, 8])
    args = [(name, make_type(1, True)) for name in names(n, NAMES)]
    text, omit, flagged = [], [], False
    if parent:
        text.append("%s* parent" % parent)
    for i, (name, t) in enumerate(args):
        flag = ""
        omitted = t.is_bool and rnd.random() < 0.4
        if omitted:
            flag = " | Bomba::SerialisationFlags::OMIT_FALSE"
        elif t.flags and rnd.random() < 0.15:
            flag = " | Bomba::SerialisationFlags::" + rnd.choice(t.flags)
            flagged = True
        omit.append(omitted)
        flagged = flagged or t.flagged
        text.append("%s a%d = Bomba::name(%s)%s" % (t.cpp, i, cstr(name), flag))
    digest = "reflect::digest(%s)" % ", ".join([cstr(identifier)] + ["a%d" % i for i in range(n)])
    body = "parent->log.push_back(%s); " % digest if parent else ""
    k = rnd.random()
    returned = None
    if k < 0.35 and (parent or k < 0.1):
        ret = "void"
    elif k < 0.6 and n > 0:
        at = rnd.randrange(n)
        returned = args[at][1]
        ret = returned.cpp
        body += "return a%d;" % at
    else:
        returned = Type("std::string", "string", "")
        ret = "std::string"
        body += "return %s;" % digest
    return "[] (%s) -> %s { %s }" % (", ".join(text), ret, body), args, omit, ret, returned, flagged


def method_description(args, returned):
    params = Pairs()
    for i, (name, t) in enumerate(args):
        params.append((name, Pairs([("def_order", i + 1), ("doc_lines", []), ("type", t.desc), ("optional", True)])))
    return Pairs([("doc_lines", []), ("params", params), ("ret_info", Pairs([("doc_lines", []), ("type", returned.desc if returned else None)]))])


def description_text(methods, needed):
    types = {}
    describe_types(needed, types)
    return to_json(Pairs([("types", Pairs([(k, Pairs([(a, b) for a, b in v])) for k, v in types.items()])), ("methods", methods)]))


objects = []
for number in range(3):
    name = "Api%d" % number
    n = rnd.choice([1, 3, 5, 6])
    method_names = names(n, METHOD_NAMES)
    out.append("struct %s : Bomba::RpcObject<%s> {" % (name, name))
    out.append("\tstd::vector<std::string> log;")
    table, methods, needed = [], Pairs(), []
    padding = rnd.choice([True, False])
    for i, method in enumerate(method_names):
        if padding and rnd.random() < 0.3:
            out.append("\t" + rnd.choice(["int gap%d;", "char gap%d[5];", "std::string gap%d = \"gap\";"]) % i)
        code, args, omit, ret, returned, flagged = make_signature(name if rnd.random() < 0.5 else None, "%s.%d" % (name, i))
        out.append("\tBomba::RpcMember<%s> f%d = child<%s>;" % (code, i, cstr(method)))
        table.append("f(reflect::Method<&%s::f%d, %s>{%s, {%s}, {%s}, %s});" % (name, i, ", ".join([ret] + [t.cpp for _, t in args]), cstr(method),
                     ", ".join(cstr(a) for a, _ in args), ", ".join("true" if o else "false" for o in omit), "true" if flagged else "false"))
        methods.append((method, method_description(args, returned)))
        for _, t in args:
            needed += t.structs
        if returned:
            needed += returned.structs
    out.append("\ttemplate <typename Fn> static void methods(Fn f) { %s }" % "\n\t\t".join(table))
    out.append("\tconstexpr static int methodCount = %d;" % n)
    out.append("\tconstexpr static const char* description = %s;" % raw(description_text(methods, needed)))
    out.append("};")
    out.append("")
    objects.append(name)

lambdas = []
for number in range(4):
    code, args, omit, ret, returned, flagged = make_signature(None, "lambda%d" % number)
    out.append("static auto lambda%d = %s;" % (number, code))
    needed = [s for _, t in args for s in t.structs] + (list(returned.structs) if returned else [])
    out.append("constexpr static const char* lambdaDescription%d = %s;" % (number, raw(description_text(Pairs([("", method_description(args, returned))]), needed))))
    lambdas.append(number)

out.append("")
out.append("template <typename Fn> void withType(Src& src, Fn fn) {\n\tswitch (src.raw(%d)) {" % (len(structs) - 1))
for i, s in enumerate(structs):
    out.append("\t\t%s return fn.template operator()<%s>(%s, %s);" % ("case %d:" % i if i < len(structs) - 1 else "default:", s.cpp, cstr(s.cpp), raw(to_json(s.zero))))
out.append("\t}\n}")
out.append("template <typename Fn> void withObject(Src& src, Fn fn) {\n\tswitch (src.raw(%d)) {" % (len(objects) - 1))
for i, o in enumerate(objects):
    out.append("\t\t%s return fn.template operator()<%s>(%s);" % ("case %d:" % i if i < len(objects) - 1 else "default:", o, cstr(o)))
out.append("\t}\n}")
out.append("Bomba::RpcLambdaHolder makeLambda(int which, const char*& description) {\n\tswitch (which) {")
for i in lambdas:
    out.append("\t\t%s description = lambdaDescription%d; return lambda%d;" % ("case %d:" % i if i < len(lambdas) - 1 else "default:", i, i))
out.append("\t}\n}")
out.append("constexpr int lambdaCount = %d;" % len(lambdas))
out.append('#include "reflect_tests.hpp"')
open(out_path, "w", encoding="utf-8").write("\n".join(out) + "\n")
