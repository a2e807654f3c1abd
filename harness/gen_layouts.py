#!/usr/bin/env python3
"""Generates src/layouts.rs from layouts.json (both are committed)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
L = json.load(open(D + '/layouts.json'))
o = []
w = o.append
w("// Generated by gen_layouts.py from layouts.json\n#![allow(warnings)]\nuse crate::lay::*;\nuse flatdata::*;\n")
for n, e in L["enums"].items():
    vs = [("P%d" % v if v >= 0 else "M%d" % -v, v) for v in e["vals"]]
    w("#[derive(Clone, Copy, Debug, PartialEq)]\n#[repr(%s)]\npub enum %s { %s }" % (
        e["repr"], n, ", ".join("%s = %d" % x for x in vs)))
    w("impl flatdata::helper::Int for %s { const IS_SIGNED: bool = %s; }" % (n, str(e["repr"][0] == 'i').lower()))
    w("impl Val for %s { fn to8(self) -> [u8; 8] { (self as i64).to_le_bytes() } fn from8(v: [u8; 8]) -> Self { match i64::from_le_bytes(v) { %s, x => crate::json::tool_error(&format!(\"bad enum value {}\", x)) } } }\n" % (
        n, ", ".join("%d => %s::%s" % (v, n, k) for k, v in vs)))
for s in L["structs"]:
    n = s["name"]
    en = any(f[1] in L["enums"] for f in s["fields"])
    fs = []
    for f, t, off, wd in s["fields"]:
        ty = t
        if en:
            ty = "%s: %s" % (t, L["enums"][t]["repr"] if t in L["enums"] else t)
        fs.append("(%s, set_%s, %s, %d, %d)" % (f, f, ty, off, wd))
    w("define_struct!(%s, Ref%s, RefMut%s, \"schema of %s\", %d, %s);" % (n, n, n, n, s["size"], ", ".join(fs)))
    w("impl Lay for %s {\n    const NAME: &'static str = \"%s\";\n    const NF: usize = %d;" % (n, n, len(s["fields"])))
    w("    fn get<'a>(x: &Ref%s<'a>, f: usize) -> [u8; 8] { match f { %s, _ => bad_field() } }" % (
        n, ", ".join("%d => x.%s().to8()" % (i, f[0]) for i, f in enumerate(s["fields"]))))
    w("    fn getm<'a>(x: &RefMut%s<'a>, f: usize) -> [u8; 8] { match f { %s, _ => bad_field() } }" % (
        n, ", ".join("%d => x.%s().to8()" % (i, f[0]) for i, f in enumerate(s["fields"]))))
    w("    fn set<'a>(x: &mut RefMut%s<'a>, f: usize, v: [u8; 8]) { match f { %s, _ => bad_field() } }" % (
        n, ", ".join("%d => x.set_%s(Val::from8(v))" % (i, f[0]) for i, f in enumerate(s["fields"]))))
    w("    fn fill<'a, 'b>(x: &mut RefMut%s<'a>, y: &Ref%s<'b>) { x.fill_from(y) }" % (n, n))
    w("    fn into_ref<'a>(d: &'a mut [u8]) -> Ref%s<'a> { %s::create_mut(d).into_ref() }\n}\n" % (n, n))
for s in L["indexes"]:
    w("define_index!(%s, Ref%s, RefMut%s, \"schema of %s\", %d, %d);" % (s["name"], s["name"], s["name"], s["name"], s["size"], s["bits"]))
w("")
for v in L["variadics"]:
    n = v["name"]
    w("define_variadic_struct!(%s, Ref%s, Builder%s, %s, %s);" % (n, n, n, v["index"],
      ", ".join("%d => (%s, add_%s)" % (k, t, t.lower()) for k, t in v["variants"])))
    w("impl Variadic for %s {\n    type Idx = %s;" % (n, v["index"]))
    w("    fn add<'a>(b: &mut Builder%s<'a>, t: i64, vals: &[[u8; 8]]) { match t { %s, _ => bad_field() } }" % (
        n, ", ".join("%d => { let mut x = b.add_%s(); set_all::<%s>(&mut x, vals) }" % (k, t.lower(), t) for k, t in v["variants"])))
    w("    fn tag<'a>(x: &Ref%s<'a>) -> i64 { match x { %s } }" % (
        n, ", ".join("Ref%s::%s(_) => %d" % (n, t, k) for k, t in v["variants"])))
    w("    fn tags() -> Vec<(i64, usize)> { vec![%s] }" % ", ".join("(%d, %d)" % (k, [len(q["fields"]) for q in L["structs"] if q["name"] == t][0]) for k, t in v["variants"]))
    w("    fn fields<'a>(x: &Ref%s<'a>) -> Vec<[u8; 8]> { match x { %s } }\n}\n" % (
        n, ", ".join("Ref%s::%s(y) => get_all::<%s>(y)" % (n, t, t) for k, t in v["variants"])))
def rs(x):
    return json.dumps(x)
def schema(a, r):
    return r[4] if len(r) > 4 else "schema of %s.%s" % (a["name"], r[1])
for a in L["archives"]:
    n = a["name"]
    by = {k: [r for r in a["res"] if r[0] == k] for k in ["struct", "vec", "mv", "raw", "sub"]}
    assert a["res"] == [r for k in ["struct", "vec", "mv", "raw", "sub"] for r in by[k]]
    b = lambda x: "true" if x else "false"
    w("define_archive!(%s, %sBuilder, %s;" % (n, n, rs(a["schema"])))
    w("    %s;" % ", ".join("(%s, set_%s, %s, %s, %s)" % (r[1], r[1], r[2], rs(schema(a, r)), b(r[3])) for r in by["struct"]))
    w("    %s;" % ", ".join("(%s, set_%s, start_%s, %s, %s, %s)" % (r[1], r[1], r[1], r[2], rs(schema(a, r)), b(r[3])) for r in by["vec"]))
    w("    %s;" % ", ".join("(%s, start_%s, %s, %s, %s_index, %s, %s)" % (
        r[1], r[1], r[2], rs(schema(a, r)), r[1], [v["index"] for v in L["variadics"] if v["name"] == r[2]][0], b(r[3])) for r in by["mv"]))
    w("    %s;" % ", ".join("(%s, set_%s, %s, %s)" % (r[1], r[1], rs(schema(a, r)), b(r[3])) for r in by["raw"]))
    w("    %s" % ", ".join("(%s, %s, %sBuilder, %s, %s)" % (r[1], r[2], r[2], rs(schema(a, r)), b(r[3])) for r in by["sub"]))
    w(");")
    def content(r):
        acc = "self.%s()" % r[1]
        f = {"struct": "struct_id::<%s>(&x)" % r[2], "vec": "vec_id::<%s>(&x)" % r[2], "mv": "mv_id::<%s>(&x)" % r[2], "raw": "raw_id(x)"}.get(r[0])
        if r[0] == "sub":
            if r[3]:
                return "match %s { Some(x) => out.extend(prefixed(\"%s\", x.content())), None => out.push((\"%s\".to_string(), NONE)) }" % (acc, r[1], r[1])
            return "out.extend(prefixed(\"%s\", %s.content()));" % (r[1], acc)
        if r[3]:
            return "out.push((\"%s\".to_string(), match %s { Some(x) => %s, None => NONE }));" % (r[1], acc, f)
        return "{ let x = %s; out.push((\"%s\".to_string(), %s)); }" % (acc, r[1], f)
    w("impl Arc for %s {\n    fn content(&self) -> Vec<(String, i64)> {\n        let mut out = vec![];" % n)
    for r in a["res"]:
        w("        " + content(r))
    w("        out\n    }\n    fn debug(&self) -> String { crate::json::shown(self) }\n    fn copy(&self) -> Box<dyn Arc> { Box::new(self.clone()) }")
    w("    fn pieces(&self) -> Vec<(&'static str, String)> {\n        vec![%s]\n    }\n}" % ", ".join(
        "(\"%s\", %s)" % (r[1], "String::new()" if r[0] == "raw" else "crate::json::shown(&self.%s())" % r[1]) for r in a["res"]))
    w("impl Bld for %sBuilder {\n    fn set(&self, res: &str, k: usize) -> std::io::Result<()> {\n        match res {" % n)
    for r in by["struct"]:
        w("            \"%s\" => { let b = struct_of::<%s>(k); self.set_%s(b.get()) }" % (r[1], r[2], r[1]))
    for r in by["vec"]:
        w("            \"%s\" => { let v = vec_of::<%s>(k); self.set_%s(&v.as_view()) }" % (r[1], r[2], r[1]))
    for r in by["raw"]:
        w("            \"%s\" => self.set_%s(&raw_of(k))," % (r[1], r[1]))
    w("            _ => bad_field(),\n        }\n    }")
    w("    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>> {\n        Ok(match res {")
    for r in by["vec"]:
        w("            \"%s\" => Box::new(EvW::<%s>(Some(self.start_%s()?), 0))," % (r[1], r[2], r[1]))
    for r in by["mv"]:
        w("            \"%s\" => Box::new(MvW::<%s>(Some(self.start_%s()?), 0))," % (r[1], r[2], r[1]))
    w("            _ => bad_field(),\n        })\n    }")
    w("    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError> {\n        Ok(match res {")
    for r in by["sub"]:
        w("            \"%s\" => Box::leak(Box::new(self.%s()?))," % (r[1], r[1]))
    w("            _ => bad_field(),\n        })\n    }\n}\n")
w("pub fn open_archive(name: &str, st: std::rc::Rc<dyn ResourceStorage>) -> Result<Box<dyn Arc>, ResourceStorageError> {\n    Ok(match name {")
for a in L["archives"]:
    w("        \"%s\" => Box::new(<%s as Archive>::open(st)?)," % (a["name"], a["name"]))
w("        _ => bad_field(),\n    })\n}")
w("pub fn new_archive(name: &str, st: std::rc::Rc<dyn ResourceStorage>) -> Result<&'static dyn Bld, ResourceStorageError> {\n    Ok(match name {")
for a in L["archives"]:
    w("        \"%s\" => Box::leak(Box::new(<%sBuilder as ArchiveBuilder>::new(st)?))," % (a["name"], a["name"]))
w("        _ => bad_field(),\n    })\n}")
def stored(a, pre):
    o = [(pre + a["name"] + ".archive", a["schema"])]
    for r in a["res"]:
        sch = schema(a, r)
        if r[0] == "sub":
            o += stored([x for x in L["archives"] if x["name"] == r[2]][0], pre + r[1] + "/")
        elif r[0] == "mv":
            o += [(pre + r[1] + "_index", "index(%s)" % sch), (pre + r[1], sch)]
        else:
            o += [(pre + r[1], sch)]
    return o
w("/// Names and schemas of all stored resources of an archive\npub fn stored(name: &str) -> Vec<(&'static str, &'static str)> {\n    match name {")
for a in L["archives"]:
    w("        \"%s\" => vec![%s]," % (a["name"], ", ".join("(%s, %s)" % (rs(x), rs(y)) for x, y in stored(a, ""))))
w("        _ => bad_field(),\n    }\n}")
w("/// Kinds, names, layouts and schemas of the resources of an archive\npub fn resources(name: &str) -> Vec<(&'static str, &'static str, &'static str, &'static str)> {\n    match name {")
for a in L["archives"]:
    w("        \"%s\" => vec![%s]," % (a["name"], ", ".join("(%s, %s, %s, %s)" % (rs(r[0]), rs(r[1]), rs(r[2]), rs(schema(a, r))) for r in a["res"])))
w("        _ => bad_field(),\n    }\n}")
def disp(mac, trait, items):
    w("#[macro_export]\nmacro_rules! %s {\n    ($n:expr, $L:ident => $e:expr) => {\n        match $n {" % mac)
    for n in items:
        w("            \"%s\" => { type $L = crate::layouts::%s; $e }" % (n, n))
    w("            x => crate::json::tool_error(&format!(\"unknown layout {}\", x)),\n        }\n    };\n}")
disp("with_struct", "Lay", [s["name"] for s in L["structs"] if s["name"][0] == 'S'])
disp("with_elem", "Lay", [s["name"] for s in L["structs"] if s["name"][0] != 'S'])
disp("with_variadic", "Variadic", [s["name"] for s in L["variadics"]])
open(D + '/src/layouts.rs', 'w').write("\n".join(o) + "\n")
