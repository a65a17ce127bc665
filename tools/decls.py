"""Random node declarations, and ways to make one wrong (or to write it differently) in exactly one place."""
import random

KINDS = ["NodeIndex", "Vec<NodeIndex>", "HashSet<NodeIndex>", "BTreeSet<NodeIndex>", "OrderSet<NodeIndex>", "IndexSet<NodeIndex>",
         "ttgraph::NodeIndex", "std::collections::HashSet<NodeIndex>", "std::vec::Vec<NodeIndex>"]
PAIRABLE = [k for k in KINDS if "Vec" not in k]
DATA = ["String", "u64", "Option<NodeIndex>", "(i64, bool)", "Vec<u8>"]
HEAD = """#![allow(dead_code, unused_imports, unused_variables, unreachable_patterns)]
use ttgraph::*;
use std::collections::{HashSet, BTreeSet};
use ::ordermap::OrderSet;
use ::indexmap::IndexSet;
"""


class Decl:
    def __init__(self):
        self.structs = {}   # variant -> list of [field, type, [groups]]
        self.phantom = {}   # variant -> [groups]
        self.groups = {}    # node group -> [variants]
        self.bidi = []      # [(var, link), (var, link)]
        self.ltypes = []    # [(var, link), [targets]]
        self.blocks = []    # extra items of node_enum!
        self.variants = {}  # variant -> its declaration in the enum, if odd
        self.derive = {}    # variant -> a whole struct, if odd
        self.field_attr = {}  # (variant, field) -> attribute text
        self.struct_attr = {}
        self.first = ""     # before the enum
        self.bidi_text = self.group_text = self.ltype_text = None
        self.tail = ""      # after everything
        self.split = self.commas = self.shuffle = False
        self.vis, self.enum_attr, self.nest = "", "", 0
        self.data = {}      # variant -> [(field, type)]

    def source(self, rng):
        o = []
        pre = "  " if self.nest else ""
        for v, fs in self.structs.items():
            if v in self.derive:
                o.append(self.derive[v])
                continue
            at = self.struct_attr.get(v)
            o.append("#[derive(TypedNode, Debug)]")
            for g in self.phantom.get(v, []):
                o.append(f"#[phantom_group({g})]")
            if at:
                o.append(at)
            o.append(f"{self.vis} struct T{v} {{")
            for f, t in self.data.get(v, []):
                if (v, f) in self.field_attr:
                    o.append("  " + self.field_attr[v, f])
                o.append(f"  {f}: {t},")
            for f, t, gs in fs:
                if (v, f) in self.field_attr:
                    o.append("  " + self.field_attr[v, f])
                elif gs:
                    o.append(f"  #[group({', '.join(gs)})]")
                o.append(f"  {f}: {t},")
            o.append("}")
        o.append("node_enum!{")
        if self.first:
            o.append(self.first)
        o.append(f"  {self.enum_attr}\n  {self.vis} enum Node {{")
        for v in self.structs:
            o.append("    " + self.variants.get(v, f"{v}(T{v})") + ",")
        o.append("  }")
        items = []

        def block(name, parts):
            if not parts:
                return
            if self.split:
                items.extend(f"  {name}!{{ {p}{',' if self.commas else ''} }}" for p in parts)
            else:
                items.append(f"  {name}!{{ " + ", ".join(parts) + ("," if self.commas else "") + " }")

        if self.bidi_text is not None:
            items.append(self.bidi_text)
        else:
            block("bidirectional", [f"{a}.{b} <-> {c}.{d}" for (a, b), (c, d) in self.bidi])
        if self.group_text is not None:
            items.append(self.group_text)
        else:
            block("group", [f"{g}{{{', '.join(vs)}}}" for g, vs in self.groups.items()])
        if self.ltype_text is not None:
            items.append(self.ltype_text)
        else:
            block("link_type", [f"{a}.{b}: " + (ts[0] if len(ts) == 1 and self.commas else "{" + ", ".join(ts) + "}") for (a, b), ts in self.ltypes])
        items += self.blocks
        if self.shuffle:
            rng.shuffle(items)
        o += items
        o.append("}")
        if self.tail:
            o.append(self.tail)
        body = "\n".join(o)
        for k in range(self.nest):
            body = "pub mod inner%d {\n%s%s\n}" % (k, HEAD.split("\n", 1)[1], body)
        return HEAD + body + "\nfn main() {}\n"


def valid(rng):
    d = Decl()
    names = ["Aa", "Bb", "Cc", "Dd"][:rng.randint(2, 4)]
    if rng.random() < 0.3:
        names[1] = rng.choice(["Type", "Match", "Loop", "LongName", "HTTPNode", "X86Add"])
    shared = rng.choice(["common", "shared_link"])
    for v in names:
        fs = []
        for i in range(rng.randint(1, 3)):
            fs.append([f"{v.lower()}_l{i}", rng.choice(KINDS), []])
        fs.append([f"{v.lower()}_p", rng.choice(PAIRABLE), []])
        fs.append([f"{v.lower()}_q", rng.choice(PAIRABLE), []])
        fs.append([shared, rng.choice(PAIRABLE), []])
        if rng.random() < 0.6:
            for f in fs:
                if rng.random() < 0.5:
                    f[2].append(f"{v.lower()}_lg")
        if not any(f[2] for f in fs):
            d.phantom[v] = [f"{v.lower()}_lg"]
        rng.shuffle(fs)
        d.structs[v] = fs
        d.data[v] = [(f"{v.lower()}_x{i}", rng.choice(DATA)) for i in range(rng.randint(1, 2))]
    d.groups["every"] = list(names)
    d.groups["some"] = sorted(rng.sample(names, rng.randint(1, len(names))))
    a, b = rng.sample(names, 2)
    d.bidi = [[(a, f"{a.lower()}_p"), (b, f"{b.lower()}_p")], [(a, f"{a.lower()}_q"), (a, f"{a.lower()}_q")]]
    if rng.random() < 0.5:
        d.bidi.append([("some", shared), (b, f"{b.lower()}_q")])
    for v in rng.sample(names, 2):
        f = rng.choice(d.structs[v])[0]
        d.ltypes.append([(v, f), rng.sample(names, rng.randint(1, 2))])
    d.ltypes.append([("every", shared), [rng.choice(names), "some"]])
    d.ltypes.append([(a, f"{a.lower()}_lg"), ["every"]])
    return d


# ---- wrong declarations: name -> change (one place)
def _any(rng, d):
    return rng.choice(list(d.structs))


def _link(rng, d, v):
    return rng.choice(d.structs[v])[0]


def odd_name(rng, d):
    """a name that is close to, but not, a declared one"""
    v = _any(rng, d)
    return rng.choice([v + "x", v.lower(), "Unknown", "T" + v, "Node"])


def odd_link(rng, d, v):
    f = _link(rng, d, v)
    return rng.choice([f + "x", "unknown", f + "_" + f])


WRONG = {}


def wrong(f):
    WRONG[f.__name__] = f
    return f


def _replace_bidi(rng, d, side, var=None, link=None):
    pair = [list(x) for x in rng.choice(d.bidi)]
    if var:
        pair[side][0] = var
    if link:
        pair[side][1] = link(pair[side][0])
    d.bidi.insert(rng.randint(0, len(d.bidi)), [tuple(x) for x in pair])


def _member(d, v):
    return v if v in d.structs else d.groups[v][0]


@wrong
def bidirectional_of_an_unknown_variant(rng, d): _replace_bidi(rng, d, rng.randint(0, 1), var=odd_name(rng, d))
@wrong
def bidirectional_between_unknown_variants(rng, d): d.bidi.append([("Unknown", "x"), ("Stranger", "y")])
@wrong
def bidirectional_of_an_unknown_link(rng, d): _replace_bidi(rng, d, rng.randint(0, 1), link=lambda v: odd_link(rng, d, _member(d, v)))
@wrong
def bidirectional_of_a_data_field(rng, d):
    v = _any(rng, d)
    p = (v, d.data[v][0][0])
    w = _any(rng, d)
    q = (w, f"{w.lower()}_p")
    d.bidi.append(rng.choice([[p, q], [q, p]]))
@wrong
def bidirectional_of_a_link_of_another_variant(rng, d):
    v, w = rng.sample(list(d.structs), 2)
    d.bidi.append(rng.choice([[(v, f"{w.lower()}_p"), (w, f"{w.lower()}_q")], [(w, f"{w.lower()}_q"), (v, f"{w.lower()}_p")]]))
@wrong
def bidirectional_group_without_the_link_in_all_members(rng, d):
    v = _any(rng, d)
    d.bidi.append(rng.choice([[("every", f"{v.lower()}_q"), (v, f"{v.lower()}_q")], [(v, f"{v.lower()}_q"), ("every", f"{v.lower()}_q")]]))
@wrong
def bidirectional_malformed(rng, d):
    v = _any(rng, d)
    f = f"{v.lower()}_p"
    d.bidi_text = "  bidirectional!{ " + rng.choice([f"{v}.{f} -> {v}.{f}", f"{v}.{f} <- {v}.{f}", f"{v} <-> {v}.{f}", f"{v}.{f}", f"{v}.{f} <->", f"{v}.{f} <-> {v}.{f} {v}.{f} <-> {v}.{f}",
                                                     f"{v}.{f}, {v}.{f}", f"{v}::{f} <-> {v}::{f}", f"{v}.{f} <-> {{{v}.{f}}}", f"{v}.{f} <-> {v}.{f}; "]) + " }"
@wrong
def group_of_an_unknown_variant(rng, d): d.groups["more"] = [_any(rng, d), odd_name(rng, d)][rng.randint(0, 1):]
@wrong
def group_malformed(rng, d):
    v = _any(rng, d)
    ok = "every{" + ", ".join(d.structs) + "}, some{" + v + "}"
    d.group_text = f"  group!{{ {ok}, " + rng.choice([f"more {v}", f"more({v})", f"more[{v}]", f"more{{{v} {v}}}", f"{{{v}}}", f"more: {{{v}}}", f"more{{{v}}} less{{{v}}}", f"more{{{v}.x}}", "more", f"more = {v}"]) + " }"
@wrong
def link_type_of_an_unknown_variant(rng, d): d.ltypes.insert(rng.randint(0, len(d.ltypes)), [(odd_name(rng, d), rng.choice(["x", d.ltypes[0][0][1]])), [_any(rng, d)]])
@wrong
def link_type_of_an_unknown_link(rng, d):
    v = rng.choice([_any(rng, d), "every", "some"])
    d.ltypes.append([(v, odd_link(rng, d, _member(d, v))), [_any(rng, d)]])
@wrong
def link_type_of_a_data_field(rng, d):
    v = _any(rng, d)
    d.ltypes.append([(v, d.data[v][0][0]), [_any(rng, d)]])
@wrong
def link_type_of_a_link_of_another_variant(rng, d):
    v, w = rng.sample(list(d.structs), 2)
    d.ltypes.append([(v, _rare(d, w)), [w]])
def _rare(d, w): return f"{w.lower()}_{'pq'[len(d.structs) % 2]}"
@wrong
def link_type_group_without_the_link_in_all_members(rng, d): d.ltypes.append([("every", _rare(d, _any(rng, d))), [_any(rng, d)]])
@wrong
def link_type_to_an_unknown_variant(rng, d):
    i = rng.randrange(len(d.ltypes))
    (p, ts) = d.ltypes[i]
    ts = list(ts)
    ts.insert(rng.randint(0, len(ts)), odd_name(rng, d))
    d.ltypes.append([p, ts])
@wrong
def link_type_only_to_an_unknown_variant(rng, d):
    v = _any(rng, d)
    d.ltypes.append([(v, _link(rng, d, v)), [odd_name(rng, d)]])
@wrong
def link_type_malformed(rng, d):
    v = _any(rng, d)
    f = _link(rng, d, v)
    d.ltype_text = f"  link_type!{{ {v}.{f}: {v}, " + rng.choice([f"{v}.{f} {v}", f"{v}: {v}", f"{v}.{f}: ({v})", f"{v}.{f}: [{v}]", f"{v}.{f}: {v} | {v}", f"{v}.{f}:", f"{v}.{f}", f"{v}.{f}: {{{v} {v}}}",
                                                      f"{v}.{f}: {v} {v}.{f}: {v}", f"{v}.{f} -> {v}", f"{v}::{f}: {v}", f"{v}.{f}: {v}; "]) + " }"
@wrong
def unknown_block(rng, d): d.blocks.append("  " + rng.choice(["bidirectionals!{}", "links!{ }", "groups!{ a{Aa} }", "link_types!{ }", "Group!{ a{Aa} }"]))
@wrong
def foreign_item(rng, d): d.blocks.append("  " + rng.choice(["struct S;", "enum E { Aa(TAa) }", "fn f() {}", "use std::fmt;", "const X: u32 = 1;", "impl Node {}"]))
@wrong
def enum_not_first(rng, d): d.first = "  " + rng.choice(["struct S;", "group!{ early{Aa} }", "use std::fmt;", "link_type!{ }"])
@wrong
def variant_without_node(rng, d):
    v = _any(rng, d)
    d.variants[v] = v
@wrong
def variant_with_two_nodes(rng, d):
    v = _any(rng, d)
    d.variants[v] = f"{v}(T{v}, T{v})"
@wrong
def variant_with_named_fields(rng, d):
    v = _any(rng, d)
    d.variants[v] = f"{v}{{x: T{v}}}"
@wrong
def variant_with_no_fields(rng, d):
    v = _any(rng, d)
    d.variants[v] = f"{v}()"
@wrong
def variant_that_is_no_node(rng, d):
    v = _any(rng, d)
    d.variants[v] = f"{v}({rng.choice(['String', 'u64', 'NodeIndex', 'Plain'])})"
    d.tail += "\nstruct Plain { x: NodeIndex }"
@wrong
def group_on_a_data_field(rng, d):
    v = _any(rng, d)
    d.field_attr[v, d.data[v][0][0]] = f"#[group({rng.choice([v.lower() + '_lg', 'extra'])})]"
@wrong
def group_on_a_plain_data_field(rng, d):
    v = _any(rng, d)
    d.data[v].append(("more_data", rng.choice(["String", "[NodeIndex; 2]", "(NodeIndex, NodeIndex)", "Option<NodeIndex>", "&'static str"])))
    d.field_attr[v, "more_data"] = "#[group(extra)]"
@wrong
def group_attribute_malformed(rng, d):
    v = _any(rng, d)
    d.field_attr[v, _link(rng, d, v)] = rng.choice(["#[group(a::b)]", "#[group(a(b))]", "#[group]", "#[group = \"a\"]", "#[group(\"a\")]", "#[group(1)]", "#[group(a = 1)]", "#[group(a b)]"])
@wrong
def phantom_group_malformed(rng, d): d.struct_attr[_any(rng, d)] = rng.choice(["#[phantom_group(a::b)]", "#[phantom_group(a(b))]", "#[phantom_group]", "#[phantom_group = \"a\"]", "#[phantom_group(\"a\")]", "#[phantom_group(a b)]"])
@wrong
def group_named_like_a_link(rng, d):
    v = _any(rng, d)
    f = _link(rng, d, v)
    d.structs[v].append(["another", "NodeIndex", [f]])
@wrong
def phantom_group_named_like_a_link(rng, d):
    v = _any(rng, d)
    d.struct_attr[v] = f"#[phantom_group({_link(rng, d, v)})]"
@wrong
def node_of_odd_shape(rng, d):
    v = _any(rng, d)
    d.derive[v] = "#[derive(TypedNode, Debug)]\n" + rng.choice([f"struct T{v}(NodeIndex);", f"struct T{v};", f"enum T{v} {{ X }}", f"union T{v} {{ x: u8 }}"])
@wrong
def discriminant_of_no_path(rng, d): d.tail += f"\nfn wrong() {{ let _ = discriminant!({rng.choice(['Node', _any(rng, d)])}); }}"
@wrong
def discriminant_of_an_unknown_variant(rng, d): d.tail += f"\nfn wrong() {{ let _ = discriminant!(Node::{rng.choice(['Unknown', 'every', 'T' + _any(rng, d)])}); }}"


# ---- the same declaration, written differently
def respell(rng, d):
    d.split, d.commas, d.shuffle = (rng.random() < 0.5 for _ in range(3))
    d.vis = rng.choice(["", "pub", "pub(crate)"])
    d.enum_attr = rng.choice(["", "/// documented", "#[derive(Debug)]", "#[allow(clippy::all)]"])
    d.nest = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.3:
        d.blocks.append("  " + rng.choice(["group!{ }", "bidirectional!{ }", "link_type!{ }"]))
    if rng.random() < 0.3:
        v = _any(rng, d)
        d.struct_attr[v] = rng.choice(["#[allow(unused)]", "/// documented", "#[phantom_group(ghost)]", "#[phantom_group(ghost, ghost2)]"])
    if rng.random() < 0.3:
        d.tail += f"\nfn f() {{ let _ = discriminant!(Node::{_any(rng, d)}); }}"
    if rng.random() < 0.3:
        d.bidi.append(rng.choice(d.bidi)) if not d.split else None
    if rng.random() < 0.3:
        d.ltypes.append(rng.choice(d.ltypes))


def cases(seed, bases, per_wrong):
    """list of (name, rule or None, source): for every wrong declaration the same one without the wrong place is there as well"""
    out = []
    kinds = list(WRONG)
    k = 0
    for b in range(bases):
        rng = random.Random(f"{seed}/{b}")
        st = rng.getrandbits(64)
        sp = rng.getrandbits(64)
        d = valid(random.Random(st))
        if b % 3:
            respell(random.Random(sp), d)
        out.append((f"b{b}", None, d.source(random.Random(sp))))
        for _ in range(per_wrong):
            rule = kinds[k % len(kinds)]
            k += 1
            e = valid(random.Random(st))
            if b % 3:
                respell(random.Random(sp), e)
            WRONG[rule](rng, e)
            out.append((f"b{b}_{rule}", rule, e.source(random.Random(sp))))
    return out
