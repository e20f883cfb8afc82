#!/usr/bin/env python3
"""Writes harness/src/wide_types.rs and wide_drop.rs: types with more fields and variants than
small integers count or machine words have bits."""
A, N = 140, 270
MUST = {7, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 269}

def kind(i):
    return "u8" if i in MUST else ["Option<u8>", "Vec<u8>", "u8", "Option<u8>"][i % 4]

o = ["// Written by tools/mkwide.py.", "", "use static_xml_derive::{Deserialize, Serialize};", "",
     f"pub const ATTRS: usize = {A};", f"pub const ELEMS: usize = {N};",
     f"pub const MUST: [usize; {len(MUST)}] = {sorted(MUST)};", "",
     "/// A required field holds 0 to 9, an absent optional or defaulted one nothing.",
     "pub trait Get {", "    fn get(&self) -> Option<u8>;", "    fn made(v: Option<u8>) -> Self;", "}",
     "impl Get for u8 {", "    fn get(&self) -> Option<u8> { (*self != 0).then(|| *self) }", "    fn made(v: Option<u8>) -> u8 { v.unwrap_or(0) }", "}",
     "impl Get for Option<u8> {", "    fn get(&self) -> Option<u8> { *self }", "    fn made(v: Option<u8>) -> Option<u8> { v }", "}",
     "impl Get for Vec<u8> {",
     "    fn get(&self) -> Option<u8> { (!self.is_empty()).then(|| self.iter().sum()) }",
     "    fn made(v: Option<u8>) -> Vec<u8> { v.into_iter().collect() }", "}", ""]

def struct(name, attrs, n, kinds):
    at = '#[static_xml(attribute, prefix = "p")] ' if attrs else ""
    o.append("#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]")
    o.append('#[static_xml(rename = "r"%s)]' % (', namespace = "p: urn:p"' if attrs else ""))
    o.append(f"pub struct {name} {{")
    for i in range(n):
        k = kinds(i)
        d = "#[static_xml(default)] " if k == "u8" and not (i in MUST and not attrs) else ""
        o.append(f"    {at}{d}f{i}: {k},")
    o.append("}")
    o.append(f"impl {name} {{")
    o.append("    #[allow(dead_code)]")
    o.append("    pub fn all(&self) -> Vec<Option<u8>> {")
    o.append("        vec![" + ", ".join(f"self.f{i}.get()" for i in range(n)) + "]")
    o.append("    }")
    o.append("    #[allow(dead_code)]")
    o.append(f"    pub fn made(f: impl Fn(usize) -> Option<u8>) -> {name} {{")
    o.append(f"        {name} {{ " + ", ".join(f"f{i}: Get::made(f({i}))" for i in range(n)) + " }")
    o.append("    }")
    o.append("}")
    o.append("")

struct("WideElems", False, N, kind)
struct("WideAttrs", True, A, lambda i: ["Option<u8>", "u8"][i % 2])
o.append("#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]")
o.append("pub enum WideEnum {")
for i in range(N):
    o.append(f"    V{i}" + ["(u8)", "", "(Vec<u8>)"][i % 3] + ",")
o.append("}")
o.append("impl WideEnum {")
o.append("    /// The variant's number and its value's, if it has one.")
o.append("    #[allow(dead_code)]")
o.append("    pub fn get(&self) -> (usize, u8) {")
o.append("        match self {")
for i in range(N):
    o.append(f"            WideEnum::V{i}" + [f"(v) => ({i}, *v)", f" => ({i}, 0)", f"(v) => ({i}, v.get().unwrap_or(0))"][i % 3] + ",")
o += ["        }", "    }", "    #[allow(dead_code)]", "    pub fn made(i: usize, v: u8) -> WideEnum {", "        match i {"]
for i in range(N):
    o.append(f"            {i if i < N - 1 else '_'} => WideEnum::V{i}" + ["(v)", "", "(vec![v])"][i % 3] + ",")
o += ["        }", "    }", "}",
      "#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]", '#[static_xml(rename = "r")]', "pub struct HasWide {",
      "    #[static_xml(flatten)]", "    pub e: WideEnum,", "}"]
dest = __file__.rsplit("/", 2)[0] + "/harness/src/"
open(dest + "wide_types.rs", "w").write("\n".join(o) + "\n")

N = 70
o = ["// Written by tools/mkwide.py.", "", "/// Many watched fields.", "#[derive(Deserialize)]", "struct WideDrop {"]
for i in range(N):
    o.append("    " + ["", "", "", "#[static_xml(default)] "][i % 4] + f"f{i}: " + ["Option<T>", "Vec<T>", "Option<T>", "T"][i % 4] + ",")
o.append("}")
o.append("holds!(WideDrop: " + " ".join(f"f{i}" for i in range(N)) + ");")
open(dest + "wide_drop.rs", "w").write("\n".join(o) + "\n")
