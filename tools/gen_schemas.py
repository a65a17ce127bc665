#!/usr/bin/env python3
"""Emit Rust node declarations (through TTGraph's own macros) together with an
independent description of each declaration.

  gen_schemas.py OUT.rs SEED NRANDOM [NAME,NAME...]      (schemas to leave out)

The curated schemas come first and never change; NRANDOM extra schemas are drawn
from SEED.  Everything the harness knows about a schema comes from the description
emitted here, never from what TTGraph's macros derived.
"""
import random, sys

SETS = ["HashSet", "BTreeSet", "OrderSet", "IndexSet"]
DATA = ["String", "(i64, bool)", "[u8; 3]", "Option<String>", "Vec<u8>", "u64", "Box<i64>",
        "Option<NodeIndex>", "std::collections::BTreeMap<String, i64>", "(NodeIndex, i64)", "char"]


class F:  # a link field
    def __init__(s, name, kind, groups=(), spell=None, multiattr=False):
        s.name, s.kind, s.groups, s.spell, s.multiattr = name, kind, list(groups), spell, multiattr


class V:  # a variant and its struct
    def __init__(s, name, fields, data=(), phantom=(), of=None, viamacro=False):
        s.name, s.fields, s.data, s.phantom = name, fields, list(data), list(phantom)
        s.of = of  # another variant whose struct this one shares
        s.viamacro = viamacro  # the struct is declared by a macro that gets the field types as parameters


class S:
    def __init__(s, name, vs, groups=(), bidi=(), ltypes=(), split=False, pre=()):
        s.name, s.vs, s.groups, s.bidi, s.ltypes = name, vs, list(groups), list(bidi), list(ltypes)
        s.split = split  # one declaration per block, in any order
        s.pre = pre


def curated():
    D, Ve, H, B, O, I = "D", "Vec", "HashSet", "BTreeSet", "OrderSet", "IndexSet"
    out = []
    out.append(S("plain", [
        V("Aa", [F("d", D), F("v", Ve), F("h", H), F("b", B), F("o", O), F("ix", I)], ["String"]),
        V("Bb", [F("d1", D), F("d2", D), F("v2", Ve)], ["(i64, bool)"]),
        V("Cc", [], ["[u8; 3]"]),
    ], groups=[("ab", ["Aa", "Bb"]), ("only_c", ["Cc"]), ("all", ["Aa", "Bb", "Cc"])]))
    out.append(S("ordered", [
        V("Na", [F("d", D), F("v", Ve), F("b", B)], ["u64"]),
        V("Nb", [F("os", O), F("xs", I)], []),
        V("Nc", [F("p", D), F("vs", Ve)], ["Option<NodeIndex>"]),
    ], groups=[("g1", ["Na", "Nc"]), ("g2", ["Nb"])]))
    out.append(S("factory", [
        V("Factory", [F("workers", H), F("products", H)], ["String"]),
        V("Worker", [F("factory", D), F("produced", Ve)], ["String"]),
        V("Product", [], ["u64"]),
    ], bidi=[("Factory.workers", "Worker.factory")],
        ltypes=[("Factory.workers", ["Worker"]), ("Factory.products", ["Product"]),
                ("Worker.factory", ["Factory"]), ("Worker.produced", ["Product"])]))
    out.append(S("pairs", [
        V("Item", [F("peer", D), F("friends", B), F("next", D), F("prev", D), F("parent", D), F("children", O),
                   F("free", Ve)], []),
        V("Tag2", [F("items", I), F("owner", D)], ["Vec<u8>"]),
        V("Lone", [F("tags", B), F("owned", D)], []),
    ], bidi=[("Item.peer", "Item.peer"), ("Item.friends", "Item.friends"), ("Item.next", "Item.prev"),
             ("Item.parent", "Item.children"), ("Tag2.items", "Lone.tags"), ("Tag2.owner", "Lone.owned")]))
    out.append(S("grid", [
        *[V(f"Left{i}", [F("g1", D, ["l1"]), F("g2", D, ["l2"])], []) for i in (1, 2, 3, 4)],
        *[V(f"Right{i}", [F("g1", D, ["r1"]), F("g2", D, ["r2"])], []) for i in (1, 2, 3, 4)],
    ], groups=[("left", ["Left1", "Left2", "Left3", "Left4"]), ("right", ["Right1", "Right2", "Right3", "Right4"]),
               ("LU", ["Left1", "Left2"]), ("LD", ["Left3", "Left4"]), ("RU", ["Right1", "Right2"]),
               ("RD", ["Right3", "Right4"])],
        ltypes=[("left.l1", ["RU"]), ("left.l2", ["RD"]), ("right.r1", ["LU"]), ("right.r2", ["LD"])],
        bidi=[("LU.l1", "RU.r1"), ("LD.l1", "RU.r2"), ("LU.l2", "RD.r1"), ("LD.l2", "RD.r2")]))
    out.append(S("choice", [
        V("Xn", [F("y", D)], []),
        V("Yn", [F("x1", D, ["x"]), F("x2", D, ["x"]), F("z", B)], []),
        V("Zn", [F("ys", O)], ["String"]),
    ], bidi=[("Xn.y", "Yn.x"), ("Yn.z", "Zn.ys")]))
    out.append(S("cross", [
        V("Hub", [F("x", B), F("w", D)], []),
        V("Bn", [F("y", D), F("other", Ve)], []),
        V("Cn", [F("z", H), F("q", D)], ["String"]),
        V("Dn", [F("y", D)], []),
    ], groups=[("leafs", ["Bn", "Dn"])],
        bidi=[("Hub.x", "leafs.y"), ("Hub.x", "Cn.z"), ("Hub.w", "Cn.q")]))
    out.append(S("typed", [
        V("Ta", [F("one", D, ["lk"]), F("many", B, ["lk", "mm"]), F("vec", Ve, ["mm"]), F("anyl", D)], ["u64"],
          phantom=["ph"]),
        V("Tb", [F("one", D, ["lk"]), F("set2", H, ["ph"]), F("anyl", Ve)], [], phantom=["mm"]),
        V("Tc", [F("back", I)], [], phantom=["lk", "mm"]),
        V("Td", [], ["String"], phantom=["ph", "lk"]),
    ], groups=[("ab", ["Ta", "Tb"]), ("abcd", ["Ta", "Tb", "Tc", "Td"]), ("cd", ["Tc", "Td"])],
        ltypes=[("abcd.lk", ["ab", "Tc"]), ("Ta.many", ["Ta", "cd"]), ("Ta.vec", ["cd"]), ("Tb.ph", ["Td"]),
                ("Tc.back", ["ab"])]))
    out.append(S("mixed", [
        V("Pm", [F("a", B, ["g"]), F("b", O, ["g", "k"]), F("d", D)], []),
        V("Qm", [F("c", H, ["hh"]), F("e", D), F("vv", Ve)], []),
        V("Rm", [F("r", D), F("up", D), F("down", B)], ["Option<String>"]),
    ], groups=[("pq", ["Pm", "Qm"])],
        bidi=[("Pm.d", "Rm.r"), ("Qm.e", "Qm.e"), ("Rm.up", "Rm.down"), ("Pm.g", "Qm.c")],
        ltypes=[("Rm.r", ["Pm"]), ("Rm.down", ["Rm"])]))
    out.append(S("wide", [
        V("AlphaNode", [F("link_a", D, ["first"]), F("link_b", Ve, ["first", "second"])], DATA[:3]),
        V("Beta2", [F("sets", B)], DATA[3:6], phantom=["first"]),
        V("X1", [F("a_long_field_name", O), F("q", D)], []),
        V("Y1z", [F("m", H, ["second"])], [DATA[6]]),
        V("GammaRay", [], [DATA[7], DATA[8]]),
        V("Eps", [F("n", I, ["first"], None), F("k", D)], [DATA[9]]),
        V("Last", [F("only", Ve)], [DATA[10]]),
    ], groups=[("odd", ["AlphaNode", "X1", "GammaRay", "Last"]), ("even", ["Beta2", "Y1z", "Eps"]),
               ("single", ["Last"])]))
    out.append(S("dupgroups", [
        V("Pd", [F("x", D, ["g1", "g2"], multiattr=True), F("y", B, ["g3"])], []),
        V("Qd", [F("u", D), F("w", B)], []),
    ], bidi=[("Pd.g1", "Qd.u"), ("Pd.g2", "Qd.u"), ("Pd.g3", "Qd.w")]))
    out.append(S("solo", [V("Sn", [F("to", D), F("tos", B), F("path", Ve)], ["String"])],
                 groups=[("every", ["Sn"])], bidi=[("Sn.to", "Sn.tos")]))
    out.append(S("overlap", [
        V("Oa", [F("up", D), F("down", B), F("peer", D), F("l", H), F("pals", O)], []),
        V("Ob", [F("up", D), F("down", O), F("peer", D), F("r", D), F("l", D), F("pals", B)], ["String"]),
        V("Oc", [F("up", B), F("down", D), F("r", I), F("l", D)], []),
    ], groups=[("all3", ["Oa", "Ob", "Oc"]), ("some", ["Oa", "Ob"]), ("more", ["Ob", "Oc"])],
        bidi=[("all3.up", "all3.down"), ("some.peer", "some.peer"), ("all3.l", "more.r"), ("some.pals", "some.pals")], split=True))
    out.append(S("manygroups", [
        V("Ma", [F("a", D, ["ga", "gb", "gc"]), F("b", B, ["gb", "gc"], multiattr=True), F("c", Ve, ["gc"]), F("d", D, ["gd"])], ["u64"]),
        V("Mb", [F("a", D, ["gb"]), F("e", O, ["gc", "ga"], multiattr=True), F("f", H, ["gd", "ga", "gb", "gc"])], [], phantom=["ge"]),
        V("Mc", [F("x", D, ["gc"])], [], phantom=["ga", "gb", "gd", "ge"]),
        V("Md", [F("x", Ve), F("a", I)], ["String"], phantom=["ga", "gb", "gc"]),
    ], groups=[("m_ab", ["Ma", "Mb"]), ("m_cd", ["Mc", "Md"]), ("m_abc", ["Ma", "Mb", "Mc"]), ("m_all", ["Ma", "Mb", "Mc", "Md"]), ("m_bd", ["Mb", "Md"])],
        ltypes=[("m_abc.gc", ["m_abc"]), ("Ma.gb", ["m_ab", "Md"]), ("Mb.ga", ["m_bd", "Ma"]), ("Ma.c", ["Ma", "m_cd"]), ("Mb.gd", ["Mb", "m_cd"]),
                ("m_cd.x", ["m_all"]), ("Md.x", ["m_cd", "Ma"]), ("m_bd.a", ["m_abc"]), ("Md.a", ["Ma", "Mb", "Md"])], split=True))
    out.append(S("twins", [
        V("Pa", [F("one", D), F("mates", B), F("seq", Ve)], ["String"]),
        V("Pb", [F("one", D), F("mates", B), F("seq", Ve)], ["String"], of="Pa"),
        V("Pc", [F("back", D), F("mates", O)], [], phantom=["nothing", "at_all"]),
    ], groups=[("both", ["Pa", "Pb"])], bidi=[("Pa.one", "Pc.back"), ("Pb.mates", "Pc.mates")], ltypes=[("Pb.seq", ["both"]), ("Pa.seq", ["Pa", "Pc"])]))
    sp = {
        "D": ["NodeIndex", "ttgraph::NodeIndex", "(NodeIndex)"],
        "Vec": ["Vec<X>", "std::vec::Vec<X>", "vec::Vec<X>", "std::vec::Vec::<X>"],
        "HashSet": ["HashSet<X>", "collections::HashSet<X>", "std::collections::HashSet<X>", "::std::collections::HashSet<X>"],
        "BTreeSet": ["BTreeSet<X>", "collections::BTreeSet<X>", "std::collections::BTreeSet<X>", "::std::collections::BTreeSet::<X>"],
        "OrderSet": ["OrderSet<X>", "map::OrderSet<X>", "ordermap::OrderSet<X>", "::ordermap::OrderSet<X>", "ordermap::set::OrderSet<X>",
                     "::ordermap::set::OrderSet<X>", "tgraph::ordermap::OrderSet<X>"],
        "IndexSet": ["IndexSet<X>", "map::IndexSet<X>", "indexmap::IndexSet<X>", "::indexmap::IndexSet<X>", "indexmap::set::IndexSet<X>",
                     "::indexmap::set::IndexSet::<X>"],
    }
    vs = []
    for k, (kind, forms) in enumerate(sp.items()):
        forms = forms if kind == "D" else [f.replace("X", x) for f in forms for x in ("NodeIndex", "ttgraph::NodeIndex")]
        vs.append(V(f"Sp{k}", [F(f"f{i}", kind, [], f) for i, f in enumerate(forms)], []))
    vs.append(V("Sp9", [F("f0", D), F("f1", Ve, [], "std::vec::Vec<NodeIndex>"), F("f2", B), F("f3", O), F("f4", D, [], "ttgraph::NodeIndex")], ["String", "(i64, bool)"], viamacro=True))
    out.append(S("spellings", vs, pre=[
        "use ::ordermap; use ::indexmap; use std::{collections, vec};",
        "mod map { pub use ::ordermap::OrderSet; pub use ::indexmap::IndexSet; } mod tgraph { pub use ::ordermap; }"]))
    big = ["North", "NorthEast", "East", "SouthEast", "South", "SouthWest", "West", "NorthWest", "Up0", "Down0"]
    out.append(S("compass", [
        V(n, [F("next", D, ["ring"]), F("prev", D, ["ring"]), F("across", [D, B, O, I, H][i % 5], ["far"] if i % 2 else []), F("trail", Ve, ["loose"] if i % 3 else [])]
          + ([F("hub_of", B), F("extra", [Ve, D, B][i % 3])] if i in (0, 3, 8) else []), DATA[i:i + 1] if i % 2 else [])
        for i, n in enumerate(big)],
        groups=[("dirs", big[:8]), ("poles", big[8:]), ("everyone", big), ("diag", big[1:8:2])],
        bidi=[("everyone.next", "everyone.prev"), ("North.across", "dirs.across"), ("poles.across", "poles.across"), ("Up0.hub_of", "SouthEast.hub_of")],
        ltypes=[("dirs.ring", ["dirs"]), ("poles.ring", ["poles"]), ("diag.trail", ["diag", "poles"]), ("SouthEast.far", ["North", "South"])], split=True))
    leg = [f"K{i}" for i in range(19)]
    out.append(S("legion", [
        V(n, [F("a", [D, B][i % 2], ["lk"])] + ([F("z", [Ve, D, O][i % 3], ["lk", "mm"] if i % 4 else [])] if i % 5 else []), ["u64"] if i % 3 == 0 else [],
          phantom=[] if i % 5 and i % 4 else ["mm"])
        for i, n in enumerate(leg)]
        + [V("Host", [F(f"p{i}", [D, B, Ve, D, O, D, I][i % 7], [f"g{i // 4}"] + (["most"] if i % 6 else [])) for i in range(26)], DATA[:4])],
        groups=[("legion_all", leg), ("legion_odd", leg[1::2]), ("legion_even", leg[::2]), ("late", leg[15:] + ["Host"]), ("whole", leg + ["Host"])],
        bidi=[("legion_odd.a", "legion_odd.a"), ("K2.a", "Host.p24"), ("K18.a", "Host.p21"), ("Host.p3", "Host.p25")],
        ltypes=[("legion_all.mm", ["legion_even", "Host"]), ("Host.g6", ["K2", "late"]), ("Host.p22", ["legion_odd"])]))
    return out


VN = ["Ant", "BeeHive", "Cat3", "DogNode", "Elk", "FoxT", "Gnu"]
FN = ["left", "right_side", "up2", "down", "inner_most", "outer", "k", "z9", "mid_point", "tail"]
SPELL = {
    "D": ["NodeIndex", "ttgraph::NodeIndex"],
    "Vec": ["Vec<NodeIndex>", "std::vec::Vec<NodeIndex>", "Vec<ttgraph::NodeIndex>", "Vec::<NodeIndex>"],
    "HashSet": ["HashSet<NodeIndex>", "std::collections::HashSet<NodeIndex>", "::std::collections::HashSet<ttgraph::NodeIndex>", "HashSet::<ttgraph::NodeIndex>"],
    "BTreeSet": ["BTreeSet<NodeIndex>", "std::collections::BTreeSet<NodeIndex>", "::std::collections::BTreeSet<NodeIndex>"],
    "OrderSet": ["OrderSet<NodeIndex>", "::ordermap::OrderSet<NodeIndex>", "::ordermap::set::OrderSet<NodeIndex>"],
    "IndexSet": ["IndexSet<NodeIndex>", "indexmap::IndexSet<NodeIndex>", "::indexmap::set::IndexSet<ttgraph::NodeIndex>"],
}


def random_schema(i, r):
    nv = r.randint(1, 5)
    names = r.sample(VN, nv)
    flavor = ["plain", "bidi", "typed", "both"][i % 4]
    lgroups = ["lga", "lgb", "grp_c"][:r.choice([2, 3])]
    vs = []
    common = []
    if r.random() < .5:
        # the same field in every variant, for declarations between groups
        common = [("shared", r.choice([["D"], ["D"] + SETS, SETS])), ("back_shared", r.choice([["D"], ["D"] + SETS]))][:r.choice([1, 2])]
    for n in names:
        nf = r.choice([0, 1, 2, 2, 3, 3, 4])
        fs = []
        for fn, kinds in [(fn, ["D", "D", "Vec"] + SETS) for fn in r.sample(FN, nf)] + common:
            kind = r.choice(kinds)
            gs = [g for g in lgroups if r.random() < .35]
            r.shuffle(gs)
            fs.append(F(fn, kind, gs, r.choice(SPELL[kind]), multiattr=r.random() < .4))
        data = r.sample(DATA, r.choice([0, 0, 1, 2, 3]))
        have = {g for f in fs for g in f.groups}
        vs.append(V(n, fs, data, [g for g in lgroups if g not in have]))
    groups = []
    for g in ["vga", "vgb", "vgc"]:
        if r.random() < .7:
            m = r.sample(names, r.randint(1, nv))
            groups.append((g, m))
    bidi, lt = [], []
    if flavor in ("bidi", "both"):
        # one declaration per field at most, so that every pair is one to one, or (rarely) a group
        cand = [(v, f) for v in vs for f in v.fields if f.kind != "Vec"]
        r.shuffle(cand)
        used = set()
        if common and groups:
            used = {(v.name, f) for v in vs for f, _ in common}
            for a in {common[0][0], common[-1][0]}:
                for _ in range(r.choice([1, 1, 2])):
                    bidi.append((f"{r.choice(groups)[0]}.{a}", f"{r.choice(groups)[0]}.{r.choice(common)[0]}"))
        for v, f in cand:
            if (v.name, f.name) in used or r.random() < .15:
                continue
            pool = [(w, g) for (w, g) in cand if (w.name, g.name) not in used]
            if not pool:
                continue
            w, g = r.choice(pool)
            used.add((v.name, f.name)); used.add((w.name, g.name))
            bidi.append((f"{v.name}.{f.name}", f"{w.name}.{g.name}"))
    if flavor in ("typed", "both"):
        seen = set()
        opp = {}
        for a, b in bidi:
            opp.setdefault(a, set()).add(b.split(".")[0]); opp.setdefault(b, set()).add(a.split(".")[0])
        for v in vs:
            for f in v.fields:
                if r.random() < .6:
                    t = set(r.sample(names, r.randint(1, nv)))
                    k = f"{v.name}.{f.name}"
                    if r.random() < .8:
                        t |= opp.get(k, set())
                    t = sorted(t)
                    lt.append((k, t)); seen.add(k)
        for _ in range(r.choice([0, 1, 1, 2, 3]) if groups else 0):
            g, m = r.choice(groups)
            lg = r.choice(lgroups + [f for f, _ in common])
            tg, _ = r.choice(groups)
            lt.append((f"{g}.{lg}", [tg] + r.sample(names, r.randint(0, min(2, nv)))))
    return S(f"rnd{i}", vs, groups, bidi, lt, split=r.random() < .5)


def rs_str(x):
    return '"' + x + '"'


def emit(s, r):
    def P(i):
        return ["Node", "self::Node"][i // 2 % 2]
    o = []
    o.append(f"pub mod {s.name} {{")
    o.append("#![allow(unused_imports, dead_code, unused_variables, deprecated, unreachable_patterns, unused_parens, non_camel_case_types)]")
    o.append("use super::*;")
    o.append("use ttgraph::*; use std::collections::{HashSet, BTreeSet}; use ::indexmap::IndexSet; use ::ordermap::OrderSet;")
    o.extend(s.pre)
    byname = {v.name: v for v in s.vs}
    for v in s.vs:
        v.struct = f"S{v.of or v.name}"
        if v.of:
            v.links, v.datas = byname[v.of].links, byname[v.of].datas
            continue
        members = [("link", f) for f in v.fields] + [("data", i) for i in range(len(v.data))] + [("tag", None), ("val", None)]
        r.shuffle(members)
        # the relative order of links is what the derive sees
        v.links = [m[1] for m in members if m[0] == "link"]
        v.datas = []
        sn = v.struct
        if v.viamacro:
            o.append("macro_rules! declare { ($n:ident $($f:ident $t:ty),* $(,)?) => { #[derive(TypedNode, Debug, Serialize, Deserialize)] pub struct $n { $(pub $f: $t),* } } }")
            o.append(f"declare!{{ {sn}")
        else:
            o.append("#[derive(TypedNode, Debug, Serialize, Deserialize)]")
            if len(v.phantom) == 2:
                o.append(f"#[phantom_group({v.phantom[0]}, {v.phantom[1]})]")
            else:
                for p in v.phantom:
                    o.append(f"#[phantom_group({p})]")
            o.append(f"pub struct {sn} {{")
        start = len(o)
        order = []
        for k, m in members:
            if k == "link":
                if m.groups:
                    if m.multiattr:
                        for g in m.groups:
                            o.append(f"  #[group({g})]")
                    else:
                        o.append(f"  #[group({', '.join(m.groups)})]")
                ty = m.spell or {"D": "NodeIndex", "Vec": "Vec<NodeIndex>"}.get(m.kind, f"{m.kind}<NodeIndex>")
                o.append(f"  pub {m.name}: {ty},")
            elif k == "data":
                o.append(f"  pub dat{m}: {v.data[m]},")
                v.datas.append((f"dat{m}", v.data[m]))
            elif k == "tag":
                o.append("  pub tag: Tag,")
                v.datas.append(("tag", "Tag"))
            else:
                o.append("  pub val: i64,")
                v.datas.append(("val", "i64"))
        if v.viamacro:
            o[start:] = [l.replace("pub ", "").replace(":", " ", 1) for l in o[start:]]
        o.append("}")
        nl = len(v.links)
        o.append(f"impl VStruct for {sn} {{")
        o.append("  fn make(tag: Tag, val: i64, l: &[Link]) -> Self {")
        o.append(f"    assert_eq!(l.len(), {nl});")
        fields = [f"{f.name}: LinkField::wr(&l[{i}])" for i, f in enumerate(v.links)]
        fields += [f"dat{i}: DataField::mk(val)" for i in range(len(v.data))] + ["tag", "val"]
        o.append(f"    Self {{ {', '.join(fields)} }}")
        o.append("  }")
        o.append("  fn rd(&self) -> Vec<Link> { vec![" + ", ".join(f"self.{f.name}.rd()" for f in v.links) + "] }")
        o.append("  fn wr(&mut self, val: i64, l: &[Link]) {")
        for i, f in enumerate(v.links):
            o.append(f"    if self.{f.name}.rd() != l[{i}] {{ self.{f.name} = LinkField::wr(&l[{i}]); }}")
        for i in range(len(v.data)):
            o.append(f"    self.dat{i} = DataField::mk(val);")
        o.append("    self.val = val;\n  }")
        chk = " && ".join([f"self.dat{i}.eqv(self.val)" for i in range(len(v.data))] or ["true"])
        o.append(f"  fn val(&self) -> i64 {{ if {chk} {{ self.val }} else {{ i64::MIN }} }}")
        o.append("  fn tag(&self) -> u64 { self.tag.0 }")
        o.append("  fn reflect_data(&self, out: &mut Reflect) { let _ = &out;")
        for n, ty in v.datas if not NOREFLECT else []:
            o.append(f"    out.data_ref(\"{n}\", &self.{n}, TypedNode::data_ref_by_name::<{ty}>(self, \"{n}\"));")
            o.append(f"    out.data_wrong(\"{n}\", TypedNode::data_ref_by_name::<Wrong>(self, \"{n}\").is_some());")
        for f in v.links if not NOREFLECT else []:
            o.append(f"    out.data_wrong(\"{f.name}\", TypedNode::data_ref_by_name::<NodeIndex>(self, \"{f.name}\").is_some());")
        if not NOREFLECT:
            o.append("    out.data_wrong(\"no_such_field\", TypedNode::data_ref_by_name::<i64>(self, \"no_such_field\").is_some());")
        o.append("  }")
        o.append("}")
    # the enum
    o.append("node_enum!{")
    o.append("  #[derive(Debug, Serialize, Deserialize)]")
    o.append("  pub enum Node {")
    for v in s.vs:
        o.append(f"    {v.name}({v.struct}),")
    o.append("  }")
    items = [("group", f"{g}{{{', '.join(m)}}}") for g, m in s.groups]
    items += [("bidirectional", f"{a} <-> {b}") for a, b in s.bidi]
    items += [("link_type", f"{a} : " + (t[0] if len(t) == 1 else "{" + ", ".join(t) + "}")) for a, t in s.ltypes]
    if s.split:
        r.shuffle(items)
    k = 0
    while k < len(items):
        e = k
        while e < len(items) and items[e][0] == items[k][0]:
            e += 1
        o.append(f"  {items[k][0]}!{{")
        # the last comma may be left out
        o.append("    " + ",\n    ".join(i[1] for i in items[k:e]) + ("" if k % 2 else ","))
        o.append("  }")
        k = e
    o.append("}")
    o.append("impl std::fmt::Display for Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"<{}>\", self.vs().tag()) } }")
    o.append("impl VNode for Node {")
    # description
    o.append("  fn schema() -> Schema { Schema::new(")
    o.append(f"    \"{s.name}\", vec![")
    for v in s.vs:
        fl = ", ".join(f"Field::new(\"{f.name}\", Kind::{f.kind if f.kind != 'D' else 'Direct'}, &[{', '.join(map(rs_str, f.groups))}])" for f in v.links)
        ph = ", ".join(map(rs_str, v.phantom))
        dn = ", ".join(rs_str(n) for n, _ in v.datas)
        o.append(f"      Var::new(\"{v.name}\", vec![{fl}], &[{ph}], &[{dn}]),")
    o.append("    ],")
    gs = ", ".join(f"(\"{g}\", vec![{', '.join(map(rs_str, m))}])" for g, m in s.groups)
    o.append(f"    vec![{gs}],")
    bs = ", ".join(f"(\"{a}\", \"{b}\")" for a, b in s.bidi)
    o.append(f"    vec![{bs}],")
    ls = ", ".join(f"(\"{a}\", vec![{', '.join(map(rs_str, t))}])" for a, t in s.ltypes)
    o.append(f"    vec![{ls}])")
    o.append("  }")
    o.append("  fn make(n: &MNode) -> Self { let tag = Tag::new(n.tag); match n.var {")
    for i, v in enumerate(s.vs):
        o.append(f"    {i} => Node::{v.name}(VStruct::make(tag, n.val, &n.links)),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn vs(&self) -> &dyn VStructDyn { match self { " + ", ".join(f"Node::{v.name}(x) => x" for v in s.vs) + " } }")
    o.append("  fn vs_mut(&mut self) -> &mut dyn VStructDyn { match self { " + ", ".join(f"Node::{v.name}(x) => x" for v in s.vs) + " } }")
    o.append("  fn var(&self) -> usize { match self { " + ", ".join(f"Node::{v.name}(_) => {i}" for i, v in enumerate(s.vs)) + " } }")
    o.append("  fn disc(v: usize) -> Self::Discriminant { match v { " + ", ".join(f"{i} => discriminant!(Node::{v.name})" for i, v in enumerate(s.vs)) + ", _ => unreachable!() } }")
    o.append("  fn get_typed(g: &Graph<Self>, v: usize, i: NodeIndex) -> Option<MNode> { match v {")
    for i, v in enumerate(s.vs):
        if NOMACROS:
            o.append(f"    {i} => match g.get(i) {{ Some(Node::{v.name}(x)) => Some(read_struct({i}, x)), _ => None }},")
            continue
        o.append(f"    {i} => evaluates(2, \"get_node!\", || get_node!(ev(g), {P(i)}::{v.name}, ev(i)).map(|x| read_struct({i}, x))),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn iter_typed(g: &Graph<Self>, v: usize) -> Vec<(NodeIndex, MNode)> { match v {")
    for i, v in enumerate(s.vs):
        if NOMACROS:
            o.append(f"    {i} => g.iter_type(Self::disc({i})).map(|(i, n)| match n {{ Node::{v.name}(x) => (i, read_struct({i}, x)), _ => panic!() }}).collect(),")
            continue
        o.append(f"    {i} => evaluates(1, \"iter_nodes!\", || iter_nodes!(ev(g), {P(i)}::{v.name}).map(|(i, x)| (i, read_struct({i}, x))).collect()),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn alloc_typed(t: &mut Transaction<'static, Self>, v: usize) -> NodeIndex { match v {")
    for i, v in enumerate(s.vs):
        if NOMACROS:
            o.append(f"    {i} => t.alloc(Self::disc({i})),")
            continue
        o.append(f"    {i} => evaluates(1, \"alloc_node!\", || alloc_node!(ev(&mut *t), {P(i)}::{v.name})),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn mut_typed(t: &mut Transaction<'static, Self>, v: usize, i: NodeIndex, f: StructFn) { match v {")
    for i, v in enumerate(s.vs):
        if NOMACROS:
            o.append(f"    {i} => t.mutate(i, move |n| match n {{ Node::{v.name}(x) => f({i}, x), _ => panic!(\"Type does not match!\") }}),")
        elif i % 2 == 0:
            # the closure has to own the copied number k
            o.append(f"    {i} => {{ let k = {i}; evaluates(2, \"mut_node!\", move || {{ let k = k; mut_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), move |x| {{ f(k, x) }}) }}) }},")
        else:
            o.append(f"    {i} => {{ let f = std::cell::Cell::new(Some(f)); let f: &'static std::cell::Cell<Option<StructFn>> = Box::leak(Box::new(f)); evaluates(2, \"mut_node!\", || if i.0 % 2 == 0 {{ mut_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), |x| {{ (f.take().unwrap())({i}, x) }}) }} else {{ mut_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), x, {{ (f.take().unwrap())({i}, x) }}) }}) }},")
    o.append("    _ => unreachable!() } }")
    o.append("  fn upd_typed(t: &mut Transaction<'static, Self>, v: usize, i: NodeIndex, f: StructFn) { match v {")
    for i, v in enumerate(s.vs):
        if NOMACROS:
            o.append(f"    {i} => t.update(i, move |n| match n {{ Node::{v.name}(mut x) => {{ f({i}, &mut x); Node::{v.name}(x) }}, _ => panic!(\"Type does not match!\") }}),")
        elif i % 2 == 0:
            o.append(f"    {i} => {{ let k = {i}; evaluates(2, \"update_node!\", move || {{ let k = k; update_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), move |x| {{ let mut x = x; f(k, &mut x); x }}) }}) }},")
        else:
            o.append(f"    {i} => {{ let f = std::cell::Cell::new(Some(f)); let f: &'static std::cell::Cell<Option<StructFn>> = Box::leak(Box::new(f)); evaluates(2, \"update_node!\", || if i.0 % 2 == 0 {{ update_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), |x| {{ let mut x = x; (f.take().unwrap())({i}, &mut x); x }}) }} else {{ update_node!(ev(&mut *t), {P(i)}::{v.name}, ev(i), x, {{ let mut x = x; (f.take().unwrap())({i}, &mut x); x }}) }}) }},")
    o.append("    _ => unreachable!() } }")
    if NOREFLECT:
        o.append("  fn reflect(&self, _: &mut Reflect) {}")
        o.append("  fn reflect_ops(&self, _: &mut Reflect, _: u64) {}")
        o.append("  fn data_val(&self) -> Option<i64> { None }")
        o.append("}")
        o.append("}")
        return "\n".join(o)
    o.append("  fn reflect(&self, out: &mut Reflect) {")
    o.append("    match self {")
    for i, v in enumerate(s.vs):
        o.append(f"    Node::{v.name}(x) => {{ reflect_struct({i}, x, out); x.reflect_data(out); }}")
    o.append("    }")
    o.append("  }")
    o.append("  fn reflect_ops(&self, out: &mut Reflect, seed: u64) { match self {")
    for i, v in enumerate(s.vs):
        o.append(f"    Node::{v.name}(x) => reflect_struct_ops({i}, x, out, seed),")
    o.append("  } }")
    o.append("  fn mirror(v: usize, f: usize) -> Self::LinkMirrorEnum { type M = <Node as NodeEnum>::LinkMirrorEnum; match v {")
    for i, v in enumerate(s.vs):
        o.append(f"    {i} => M::{v.name}(<{v.struct} as TypedNode>::link_mirrors()[f]),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn log(v: usize, name: &'static str) -> Option<Self::LoGMirrorEnum> { type M = <Node as NodeEnum>::LoGMirrorEnum; match v {")
    for i, v in enumerate(s.vs):
        o.append(f"    {i} => <{v.struct} as TypedNode>::get_link_or_group_by_name(name).map(M::{v.name}),")
    o.append("    _ => unreachable!() } }")
    o.append("  fn data_val(&self) -> Option<i64> { self.data_ref_by_name::<i64>(\"val\").copied() }")
    o.append("}")
    o.append("}")
    return "\n".join(o)


NOREFLECT = False  # leave the reflection interface alone
NOMACROS = False  # call the untyped operations where the typed macros are meant


def main():
    global NOMACROS, NOREFLECT
    NOREFLECT = "noreflect" in sys.argv[5:]
    NOMACROS = "nomacros" in sys.argv[5:]
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    drop = set(sys.argv[4].split(",")) if len(sys.argv) > 4 and sys.argv[4] else set()
    ss = curated()
    r0 = random.Random(7)
    parts = [(s.name, emit(s, r0)) for s in ss]
    r = random.Random(seed * 7919 + 13)
    rs = [random_schema(i, r) for i in range(n)]
    parts += [(s.name, emit(s, r)) for s in rs]
    allns = [n for n, _ in parts if n not in drop]
    parts = [p for n, p in parts if n not in drop]
    parts.append("#[macro_export]\nmacro_rules! for_schemas { ($m:ident) => { vec![" +
                 ", ".join(f"$m!({n})" for n in allns) + "] } }")
    txt = "\n".join(parts) + "\n"
    try:
        if open(out).read() == txt:
            return
    except OSError:
        pass
    open(out, "w").write(txt)


main()
