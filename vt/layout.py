"""Struct layouts, prototypes and enumerators of the public headers, from clang's AST and a compiled probe."""
import os, json, subprocess, re
import front
from front import Broken, run, scratch


class Layout(object):
    def __init__(self, cfg):
        b, us = front.units(cfg)
        src = [s for s in us if s.endswith("/relay_protocol.c")]
        if not src:
            raise Broken("relay_protocol.c is not a library unit any more")
        self.flags = us[src[0]]
        self.dir = b
        probe = os.path.join(scratch(), "probe-%s.c" % cfg)
        hdrs = '#include <stddef.h>\n#include <stdint.h>\n#include "nostr.h"\n#include "nostr_relay_protocol.h"\n'
        internal = sorted(h for h in os.listdir(os.path.join(front.REPO, "src")) if h.endswith("_internal.h"))
        marker = "vt_public_end"
        hdrs += "typedef int %s;\n" % marker + "".join('#include "%s"\n' % os.path.join(front.REPO, "src", h) for h in internal)
        open(probe, "w").write(hdrs)
        r = run(["clang-18", "-fsyntax-only", "-w"] + self.flags + ["-Xclang", "-ast-dump=json", probe], cwd=b)
        ast = json.loads(r.stdout)
        self.records, self.protos, self.enums, self.typedefs = {}, {}, {}, {}
        self.iprotos, public = {}, True         # functions shared between source files only
        byid = {}
        def walk(n):
            k = n.get("kind")
            if k == "RecordDecl" and n.get("completeDefinition"):
                byid[n["id"]] = n
            if k == "EnumConstantDecl":
                pass
        last = None
        for n in ast.get("inner", []):
            k = n.get("kind")
            if k == "RecordDecl" and n.get("completeDefinition"):
                byid[n["id"]] = n
                if n.get("name"):
                    self.records["struct " + n["name"]] = self.fields(n)
            elif k == "TypedefDecl":
                nm = n["name"]
                if nm == marker:
                    public = False
                q = n["type"]["qualType"]
                self.typedefs[nm] = q
                for c in n.get("inner", []):
                    o = c.get("ownedTagDecl") or (c.get("inner", [{}])[0].get("decl") if c.get("inner") else None)
                    if o and o.get("id") in byid:
                        self.records[nm] = self.fields(byid[o["id"]])
                    elif c.get("decl", {}).get("id") in byid:
                        self.records[nm] = self.fields(byid[c["decl"]["id"]])
            elif k == "FunctionDecl":
                ps = [(c.get("name", ""), c["type"]["qualType"]) for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
                old = self.protos.get(n["name"])
                (self.protos if public or old else self.iprotos)[n["name"]] = (n["type"]["qualType"].split("(")[0].strip(), ps)
            elif k == "EnumDecl":
                v = -1
                for c in n.get("inner", []):
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    vals = [x for x in c.get("inner", []) if "value" in x]
                    v = int(vals[0]["value"]) if vals else v + 1
                    self.enums[c["name"]] = v
                    self.enumof = getattr(self, "enumof", {})
                    self.enumof.setdefault(n.get("name") or n["id"], []).append(c["name"])
        # offsets
        lines = [hdrs]
        want = []
        for r, fs in self.records.items():
            if not (r.startswith("nostr_") or r in ("cJSON",) or r.startswith("struct nostr_")):
                continue
            if r.startswith("struct ") and r[7:] in self.records:
                continue
            for path, ty in self.flat(r):
                k = len(want)
                want.append((r, path, ty))
                lines.append("const unsigned long vt_o%d = __builtin_offsetof(%s, %s);\nconst unsigned long vt_s%d = sizeof(((%s*)0)->%s);\n" % (k, r, path, k, r, path))
            k = len(want)
            want.append((r, "", ""))
            lines.append("const unsigned long vt_o%d = 0;\nconst unsigned long vt_s%d = sizeof(%s);\n" % (k, k, r))
        lines.append("#include <cjson/cJSON.h>\nconst unsigned long vt_cjson_vs = __builtin_offsetof(cJSON, valuestring);const unsigned long vt_cjson_vd = __builtin_offsetof(cJSON, valuedouble);const unsigned long vt_cjson_vi = __builtin_offsetof(cJSON, valueint);const unsigned long vt_cjson_next=__builtin_offsetof(cJSON,next);const unsigned long vt_cjson_child=__builtin_offsetof(cJSON,child);const unsigned long vt_cjson_string=__builtin_offsetof(cJSON,string);\n")
        p2 = os.path.join(scratch(), "probe2-%s.c" % cfg)
        open(p2, "w").write("".join(lines))
        bc = p2 + ".bc"
        run(["clang-18", "-c", "-emit-llvm", "-O0", "-w"] + self.flags + [p2, "-o", bc], cwd=b)
        import ir
        m = ir.Module(bc, passes="")
        self.off, self.size = {}, {}
        for k, (r, path, ty) in enumerate(want):
            o, s = m.globals["vt_o%d" % k].init_ints, m.globals["vt_s%d" % k].init_ints
            if path:
                self.off[(r, path)] = (o, s, ty)
            else:
                self.size[r] = s
        self.cjson = {n: m.globals["vt_cjson_" + n].init_ints for n in ("vs", "vd", "vi", "next", "child", "string")}

    def index(self, rec, field):
        """position of a field in its record"""
        r = rec if rec in self.records else "struct " + rec
        return [n for n, _ in self.records[r]].index(field)

    def fields(self, rec):
        out, nested = [], None
        for c in rec.get("inner", []):
            if c.get("kind") == "RecordDecl":
                nested = c
            elif c.get("kind") == "FieldDecl" and c.get("name"):
                q = c["type"]["qualType"]
                if "unnamed" in q and nested is not None and "*" not in q and "[" not in q:
                    self.records.setdefault(q, self.fields(nested))
                out.append((c["name"], q))
        return out

    def flat(self, r, pre="", depth=0):
        for n, ty in self.records[r]:
            yield pre + n, ty
            t = ty.replace("const ", "").strip()
            if t in self.records and depth < 4:
                for x in self.flat(t, pre + n + ".", depth + 1):
                    yield x

    def f(self, rec, path):
        """(offset, size) of a field; the analysis is meaningless without it"""
        r = self.off.get((rec, path))
        if r is None:
            raise Broken("field %s.%s not found" % (rec, path))
        return r[0], r[1]

    def fieldname(self, rec, off):
        best = None
        for (r, p), (o, s, ty) in self.off.items():
            if r == rec and o <= off < o + s and (best is None or len(p) > len(best)):
                best = p
        return best

    def fieldsof(self, rec):
        return [(p, o, s, ty) for (r, p), (o, s, ty) in self.off.items() if r == rec]

    def base(self, ty):
        """strip const / pointers / typedef-of-struct names"""
        t = ty.replace("const", "").replace("*", "").replace("struct ", "").strip()
        return t


_c = {}
def layout(cfg):
    if cfg not in _c:
        _c[cfg] = Layout(cfg)
    return _c[cfg]
