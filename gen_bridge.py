"""The shared structs of a cxx bridge: C++ (as cxx-build would declare them)."""
import os, re

CPP = {"f64": "double", "f32": "float", "usize": "::std::size_t", "isize": "::std::ptrdiff_t", "bool": "bool", "String": "::rust::String"}
for b in (8, 16, 32, 64):
    CPP["i%d" % b] = "::std::int%d_t" % b
    CPP["u%d" % b] = "::std::uint%d_t" % b


def strip_comments(t):
    keep = r'(r#*"(?:.|\n)*?"#*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\')'
    return re.sub(keep + r"|/\*(?:.|\n)*?\*/|//[^\n]*", lambda m: m.group(1) or "", t)


def close(t, i):
    """index after the bracket that closes the one at i"""
    pair = {"{": "}", "(": ")", "<": ">"}
    o, c, d = t[i], pair[t[i]], 0
    for k in range(i, len(t)):
        if t[k] == o:
            d += 1
        elif t[k] == c and not (c == ">" and t[k - 1] == "-"):
            d -= 1
            if d == 0:
                return k + 1
    raise ValueError("unbalanced " + o)


def split_args(s):
    out, d, cur = [], 0, ""
    for k, ch in enumerate(s):
        if ch in "(<[":
            d += 1
        elif ch in ")]" or (ch == ">" and s[k - 1] != "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(path):
    """-> namespace, structs [(name, [(field, type)])], functions [(name, [(arg, type)], ret)], rest of the file"""
    raw = open(path).read()
    t = strip_comments(raw)
    m = re.search(r"#\[cxx::bridge(?:\(([^)]*)\))?\]\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*\{", t)
    ns = re.search(r'namespace\s*=\s*"?([\w:]+)', m.group(1) or "")
    end = close(t, m.end() - 1)
    body = t[m.end():end - 1]
    structs = []
    for s in re.finditer(r"\bstruct\s+(\w+)\s*\{", body):
        e = close(body, s.end() - 1)
        fields = []
        for f in split_args(body[s.end():e - 1]):
            f = re.sub(r"#\[[^\]]*\]", "", f).strip()
            f = re.sub(r"^pub(\([^)]*\))?\s+", "", f)
            n, ty = f.split(":", 1)
            fields.append((n.strip(), re.sub(r"\s+", "", ty)))
        structs.append((s.group(1), fields))
    funcs = []
    for s in re.finditer(r"\bfn\s+(\w+)\s*\(", body):
        e = close(body, s.end() - 1)
        args = []
        for a in split_args(body[s.end():e - 1]):
            if a in ("&self", "self"):
                args.append(("self", "&Self"))
                continue
            n, ty = a.split(":", 1)
            args.append((n.strip(), re.sub(r"\s+", " ", ty).strip()))
        tail = body[e:body.index(";", e)]
        r = re.match(r"\s*->\s*(.*)", tail, re.S)
        funcs.append((s.group(1), args, re.sub(r"\s+", "", r.group(1)) if r else ""))
    return (ns.group(1) if ns else ""), m.group(2), structs, funcs, t[:m.start()] + t[end:]


def cpp(ty):
    m = re.fullmatch(r"Vec<(.*)>", ty)
    if m:
        return "::rust::Vec<%s>" % cpp(m.group(1))
    return CPP.get(ty, ty)


def generate(librs, out):
    ns, mod, structs, funcs, rest = parse(librs)
    done, todo, order = set(), list(structs), []
    names = {s[0] for s in structs}
    while todo:
        n0 = len(todo)
        for s in list(todo):
            deps = {w for f, ty in s[1] for w in re.findall(r"\w+", ty) if w in names and w != s[0]}
            if deps <= done:
                order.append(s)
                done.add(s[0])
                todo.remove(s)
        if len(todo) == n0:
            raise ValueError("recursive structs")
    o = ["#pragma once", "#include <rust/cxx.h>", "#include <cstddef>", "#include <cstdint>"]
    for inc in re.findall(r'include!\("([^"]*)"\)', open(librs).read()):
        o.append('#include "%s"' % inc)
    o.append("namespace %s {" % ns)
    for name, fields in order:
        o.append("struct %s final {" % name)
        for f, ty in fields:
            o.append("  %s %s%s;" % (cpp(ty), f, "" if "Vec" in ty or ty in names else " CXX_DEFAULT_VALUE(0)"))
        o.append("  using IsRelocatable = ::std::true_type;\n};")
    o.append("}")
    s = "\n".join(o).replace(" CXX_DEFAULT_VALUE(0)", "")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, "w").write(s + "\n")


if __name__ == "__main__":
    import sys
    print(*parse(sys.argv[1])[:4], sep="\n")
    generate(sys.argv[1], "/tmp/x/lib.rs.h")
