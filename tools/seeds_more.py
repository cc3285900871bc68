import importlib.util, os
def load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
CMD = load("seeds_cmd").DEMO
def crates(deps, run='cargo run -q --offline'):
    return '''#!/bin/bash
# run with cwd = the repository: builds a small program against its packages and runs it
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$H/main.rs" "$T/src/main.rs" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
''' + "\n".join(deps) + '''
TOML
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" ''' + run + '\n'
GEN = crates(['dot-structures = { path = "$R/dot-structures" }', 'dot-generator = { path = "$R/dot-generator" }'])
DER = crates(['into-attr-derive = { path = "$R/into-attr-derive" }', 'into-attr = "0.1.1"', 'dot-structures = "0.1.2"', 'dot-generator = "0.2.0"'])
PF = 'src/printer.rs'; GF = 'dot-generator/src/lib.rs'; DF = 'into-attr-derive/src/lib.rs'; AF = 'src/attributes/mod.rs'; AG = 'src/attributes/generate.rs'; LF = 'src/lib.rs'; QF = 'src/parser.rs'
USE = 'use dot_generator::*;\nuse dot_structures::*;\n'
RUSE = '''use graphviz_rust::dot_generator::*;
use graphviz_rust::dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
'''
SEEDS = [
 # ---- printer
 dict(id="p7-attr-dedup", property="C11", needs="attributes on separate lines and the same attribute twice in a row", breaks="the repeated attribute is printed once",
  edits=[(PF, '''            let indent = ctx.indent();
            ctx.indent_grow();
            let r = format!(
                "[{}{}{}{}{}]",''', '''            let indent = ctx.indent();
            let mut attrs = attrs;
            attrs.dedup();
            ctx.indent_grow();
            let r = format!(
                "[{}{}{}{}{}]",''')],
  main=RUSE + '''fn main() {
    let n: Node = node!("a"; attr!("k", 1), attr!("k", 1));
    let mut ctx = PrinterContext::default();
    ctx.with_node_mult_attr_s_l();
    assert_eq!(n.print(&mut ctx).matches("k=1").count(), 2);
}
'''),
 dict(id="p8-multiline-text", property="C13", needs="a quoted identifier with a line break", breaks="the line break is printed as an escape sequence",
  edits=[(PF, '''            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),''', '''            Id::Escaped(v) if v.contains('\\n') => v.replace('\\n', "\\\\n"),
            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),''')],
  main=RUSE + '''fn main() {
    let i: Id = id!(esc "a\\nb");
    assert_eq!(i.print(&mut PrinterContext::default()), "\\"a\\nb\\"");
}
'''),
 dict(id="p9-capacity", property="C18", needs="an edge chain whose first end point is longer than the inline size", breaks="the capacity of the chain underflows: a panic",
  edits=[(PF, '''            let mut chain = h;
            for el in iter {''', '''            let mut chain = String::with_capacity(ctx.inline_size - h.len());
            chain.push_str(&h);
            for el in iter {''')],
  main=RUSE + '''fn main() {
    let long = "x".repeat(200);
    let e: Edge = edge!(node_id!(long) => node_id!("b") => node_id!("c"));
    let mut ctx = PrinterContext::default();
    e.print(&mut ctx);
}
'''),
 dict(id="p10-env-indent", property="C19", needs="an environment variable that is set", breaks="the indentation depends on the environment",
  edits=[(PF, '''            " ".repeat(self.indent)
''', '''            let fill = std::env::var("DOT_INDENT").unwrap_or_else(|_| " ".to_string());
            fill.repeat(self.indent)
''')],
  main=RUSE + '''fn main() {
    let g: Graph = graph!(id!("g"); node!("a"));
    let a = g.print(&mut PrinterContext::default());
    std::env::set_var("DOT_INDENT", "  ");
    assert_eq!(g.print(&mut PrinterContext::default()), a);
}
'''),
 # ---- execution
 dict(id="e6-exec-inline", property="C24", needs="exec with a context that prints on several lines and a program that reads its input", breaks="exec prints the graph in another layout than the context it is given",
  edits=[(LF, '''    cmd::exec(print(graph, ctx), args)''', '''    let text = if args.is_empty() {
        print(graph, ctx.always_inline())
    } else {
        print(graph, ctx)
    };
    cmd::exec(text, args)''')], demo=CMD,
  extra={"fake-dot": '#!/bin/sh\nfor a in "$@"; do f="$a"; done\ncat "$f"\n', "main.rs": RUSE + '''fn main() {
    let g: Graph = graph!(id!("g"); node!("a"), node!("b"));
    let want = g.print(&mut PrinterContext::default());
    let out = graphviz_rust::exec(g, &mut PrinterContext::default(), vec![]).unwrap();
    assert_eq!(String::from_utf8(out).unwrap(), want);
}
'''}),
 dict(id="e7-trace", property="C24", needs="an environment variable that is set", breaks="parsing reads the environment and writes to standard error",
  edits=[(QF, '''    DotParser::parse(ty, input)
''', '''    if std::env::var_os("GRAPHVIZ_TRACE").is_some() {
        eprintln!("parsing {} bytes as {:?}", input.len(), ty);
    }
    DotParser::parse(ty, input)
''')],
  main='''fn main() {
    if std::env::args().count() > 1 {
        graphviz_rust::parse("graph {}").unwrap();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").env("GRAPHVIZ_TRACE", "1").output().unwrap();
    assert!(o.status.success() && o.stderr.is_empty());
}
'''),
 # ---- macros
 dict(id="m1-html-block", property="C26", needs="a subgraph with an HTML id and listed statements", breaks="the id of the subgraph becomes a plain one",
  edits=[(GF, "        Subgraph{id:id!(html $id),stmts:stmts_vec}", "        Subgraph{id:id!($id),stmts:stmts_vec}")], demo=GEN,
  extra={"main.rs": USE + '''fn main() {
    let s = subgraph!(html "<b>x</b>"; node!("a"));
    assert_eq!(s.id, Id::Html("<b>x</b>".to_string()));
}
'''}),
 dict(id="m2-twice", property="C26", needs="an attribute list whose expression has an effect", breaks="the list is evaluated twice",
  edits=[(GF, '''    ($id:expr, $attrs:expr  ) => {
        Node::new(NodeId(id!($id), None), $attrs)
    };
    ( $id:expr; $($attr''', '''    ($id:expr, $attrs:expr  ) => {
        if $attrs.is_empty() { node!($id) } else { Node::new(NodeId(id!($id), None), $attrs) }
    };
    ( $id:expr; $($attr''')], demo=GEN,
  extra={"main.rs": USE + '''fn main() {
    let mut lists = vec![vec![attr!("b", 2)], vec![attr!("a", 1)]];
    let n = node!("x", lists.pop().unwrap());
    assert_eq!(n.attributes, vec![attr!("a", 1)]);
    assert_eq!(lists.len(), 1);
}
'''}),
 dict(id="m3-self-loop", property="C26", needs="a chain with listed attributes in which an end point comes twice in a row", breaks="the repeated end point is lost",
  edits=[(GF, '''         $( attrs_vec.push($attrs) ; )+

         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
         $( edges_vec.push(Vertex::from($nexts)) ; )+
''', '''         $( attrs_vec.push($attrs) ; )+

         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
         $( edges_vec.push(Vertex::from($nexts)) ; )+
         edges_vec.dedup();
''')], demo=GEN,
  extra={"main.rs": USE + '''fn main() {
    let e = edge!(node_id!("a") => node_id!("b") => node_id!("b"); attr!("k", 1));
    match e.ty { EdgeTy::Chain(v) => assert_eq!(v.len(), 3), _ => panic!() }
}
'''}),
 dict(id="m4-quoted-already", property="C26", needs="an escaped id whose text begins with a quotation mark", breaks="the text is taken as quoted already",
  edits=[(GF, '''        Id::Escaped(format!("\\"{}\\"", $e))''', '''        Id::Escaped({
            let text = $e.to_string();
            if text.starts_with('"') {
                text
            } else {
                format!("\\"{}\\"", text)
            }
        })''')], demo=GEN,
  extra={"main.rs": USE + '''fn main() {
    assert_eq!(id!(esc "\\"a"), Id::Escaped("\\"\\"a\\"".to_string()));
}
'''}),
 # ---- derive
 dict(id="d1-underscores", property="C28", needs="a variant with two underscores at its end", breaks="all trailing underscores are taken off",
  edits=[(DF, '''v.as_str().strip_suffix("_").unwrap_or(v.as_str());''', '''v.as_str().trim_end_matches('_');''')], demo=DER,
  extra={"main.rs": USE + '''use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;
#[allow(non_camel_case_types)]
#[derive(Debug, IntoAttribute)]
enum kind { same__, box_ }
fn main() {
    assert_eq!(kind::same__.into_attr(), attr!("kind", "same_"));
    assert_eq!(kind::box_.into_attr(), attr!("kind", "box"));
}
'''}),
 dict(id="d2-blanks", property="C28", needs="a text with blanks at one of its ends", breaks="the blanks are lost",
  edits=[(DF, '''                 attr!(#name_str,self.0)''', '''                 let value = format!("{}", self.0);
                 let value = value.trim();
                 attr!(#name_str,value)''')], demo=DER,
  extra={"main.rs": USE + '''use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;
#[allow(non_camel_case_types)]
#[derive(Debug, IntoAttribute)]
struct label(String);
fn main() {
    assert_eq!(label(" a".to_string()).into_attr(), attr!("label", " a"));
}
'''}),
 # ---- attributes
 dict(id="a1-default-value", property="C27", needs="an attribute with a default that is given another value than that, below it", breaks="values below the default are raised to the default",
  edits=[(AF, '''generate_attr!(struct penwidth for SubgraphAttributes,NodeAttributes,EdgeAttributes; f32;1.);''', '''#[derive(Debug, PartialEq, IntoAttribute)]
pub struct penwidth(f32);
impl Default for penwidth {
    fn default() -> Self {
        penwidth(1.)
    }
}
impl SubgraphAttributes {
    pub fn penwidth(elem: f32) -> Attribute {
        penwidth(elem).into_attr()
    }
}
impl NodeAttributes {
    pub fn penwidth(elem: f32) -> Attribute {
        penwidth(elem).into_attr()
    }
}
impl EdgeAttributes {
    pub fn penwidth(elem: f32) -> Attribute {
        penwidth(elem.max(1.)).into_attr()
    }
}''')],
  main='''use graphviz_rust::attributes::*;
use graphviz_rust::dot_generator::*;
use graphviz_rust::dot_structures::*;
fn main() {
    assert_eq!(EdgeAttributes::penwidth(2.), attr!("penwidth", 2.));
    assert_eq!(EdgeAttributes::penwidth(0.5), attr!("penwidth", 0.5));
}
'''),
 dict(id="a2-debug-number", property="C27", needs="a margin that is a whole number", breaks="the numbers are written as Rust shows them for debugging",
  edits=[(AF, '''            id!(format!("{},{}", horizontal, vertical)),''', '''            id!(if horizontal.fract() == vertical.fract() {
                format!("{},{}", horizontal, vertical)
            } else {
                format!("{:?},{:?}", horizontal, vertical)
            }),''')],
  main='''use graphviz_rust::attributes::*;
use graphviz_rust::dot_structures::*;
fn main() {
    assert_eq!(NodeAttributes::margin_separate(1.0, 2.5).1, Id::Plain("1,2.5".to_string()));
}
'''),
 dict(id="a3-carrier", property="C29", needs="one attribute of one kind of element", breaks="nodes are offered minlen, an attribute of edges",
  edits=[(AF, "struct minlen for EdgeAttributes;", "struct minlen for EdgeAttributes,NodeAttributes;")],
  main='''use graphviz_rust::attributes::*;
trait Absent {
    fn minlen(_: i32) -> u8;
}
impl Absent for NodeAttributes {
    fn minlen(_: i32) -> u8 {
        7
    }
}
fn is_seven<T: std::any::Any>(t: T) -> bool {
    (&t as &dyn std::any::Any).downcast_ref::<u8>() == Some(&7)
}
fn main() {
    // an attribute function of the library would come before the one of the trait
    assert!(is_seven(NodeAttributes::minlen(1)));
}
'''),
 dict(id="a4-default", property="C29", needs="the default of one attribute", breaks="the default of samplepoints is 0 instead of 8",
  edits=[(AF, "struct samplepoints for NodeAttributes; i32;8", "struct samplepoints for NodeAttributes; i32;0")],
  main='''use graphviz_rust::attributes::*;
use graphviz_rust::dot_structures::*;
use graphviz_rust::into_attr::IntoAttribute;
fn main() {
    assert_eq!(samplepoints::default().into_attr().1, Id::Plain("8".to_string()));
}
'''),
]
