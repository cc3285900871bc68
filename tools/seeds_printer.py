P = "src/printer.rs"
PRE = '''use graphviz_rust::dot_generator::*;
use graphviz_rust::dot_structures::*;
use graphviz_rust::printer::{AttributeValuePrinter, DotPrinter, PrinterContext};
#[allow(unused)] fn n(s: &str) -> Vertex { Vertex::N(NodeId(Id::Plain(s.to_string()), None)) }
#[allow(unused)] fn at(k: &str, v: &str) -> Attribute { Attribute(Id::Plain(k.to_string()), Id::Plain(v.to_string())) }
#[allow(unused)] fn none() -> Option<Box<AttributeValuePrinter>> { None }
#[allow(unused)] fn used() -> Id { id!("a") }
'''
SEEDS = [
 dict(id="p1-strict-kind", property="C12", needs="one context: a directed graph, then a strict undirected graph with an edge",
  breaks="the strict undirected graph is printed with ->",
  edits=[(P, '''            Graph::Graph { id, strict, stmts } if *strict => {
                ctx.is_digraph = false;
''', '''            Graph::Graph { id, strict, stmts } if *strict => {
''')],
  main=PRE + '''fn main() {
    let e = || Stmt::Edge(Edge { ty: EdgeTy::Pair(n("a"), n("b")), attributes: vec![] });
    let mut c = PrinterContext::default();
    let d = Graph::DiGraph { id: Id::Plain("d".into()), strict: false, stmts: vec![e()] };
    let g = Graph::Graph { id: Id::Plain("g".into()), strict: true, stmts: vec![e()] };
    d.print(&mut c);
    assert!(!g.print(&mut c).contains("->"));
}
'''),
 dict(id="p2-inline-semi-attrs", property="C14", needs="semicolons on, one-line mode, an element with two attributes",
  breaks="the attributes run into each other: [k=1l=2]",
  edits=[(P, 'format!("[{}]", attrs.join(" "))', 'format!("[{}]", attrs.join(if ctx.semi { ctx.l_s.as_str() } else { " " }))')],
  main=PRE + '''fn main() {
    let e = Edge { ty: EdgeTy::Pair(n("a"), n("b")), attributes: vec![at("k", "1"), at("l", "2")] };
    let mut c = PrinterContext::default();
    c.with_semi();
    assert!(!e.print(&mut c).contains("k=1l=2"));
}
'''),
 dict(id="p3-line-sep-lost", property="C15", needs="a custom line separator and an edge short enough for one line, then a further print",
  breaks="after the first edge printed inline the separator falls back to the default one",
  edits=[(P, """        self.l_s = sep.clone();
        self.l_s_m = sep;
""", """        self.l_s = sep;
""")],
  main=PRE + '''fn main() {
    let e = Edge { ty: EdgeTy::Pair(n("a"), n("b")), attributes: vec![] };
    let s = Subgraph { id: Id::Plain("s".into()), stmts: vec![Stmt::Edge(e)] };
    let mut c = PrinterContext::default();
    c.with_line_sep("\\r\\n".to_string());
    let a = s.print(&mut c);
    let b = s.print(&mut c);
    assert_eq!(a, b);
}
'''),
 dict(id="p4-html-value-printer", property="C17", needs="a value printer registered for an attribute whose value is an HTML id",
  breaks="HTML values bypass the registered value printer",
  edits=[(P, "if let Some(formatter) = ctx.attr_value_printers.get(l) {", "if let (Some(formatter), false) = (ctx.attr_value_printers.get(l), matches!(r, Id::Html(_))) {")],
  main=PRE + '''fn main() {
    let mut c = PrinterContext::default();
    c.with_attr_value_printer(Id::Plain("k".into()), Box::new(|v, _, _, _| format!("<{}>", v)));
    let a = Attribute(Id::Plain("k".into()), Id::Html("<b>".into()));
    assert_eq!(a.print(&mut c), "k=<<b>>");
}
'''),
 dict(id="p5-chain-dedup", property="C10", needs="an edge chain with the same vertex twice in a row",
  breaks="a self loop inside a chain is printed once",
  edits=[(P, '''            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''', '''            let mut last = vs.first();
            for el in iter {
                if last != Some(el) || vs.len() < 3 {
                    chain = format!("{} {} {}", chain, bond, el.print(ctx));
                }
                last = Some(el);
            }''')],
  main=PRE + '''fn main() {
    let e = Edge { ty: EdgeTy::Chain(vec![n("a"), n("a"), n("b")]), attributes: vec![] };
    let mut c = PrinterContext::default();
    assert_eq!(e.print(&mut c), "a -- a -- b");
}
'''),
 dict(id="p6-inline-boundary", property="C16", needs="an edge whose printed length equals the maximum inline length exactly and has a subgraph end",
  breaks="an edge that fits exactly is not printed on one line",
  edits=[(P, "if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {", "if edge_str.len() < ctx.inline_size && !ctx.is_inline_on() {")],
  main=PRE + '''fn main() {
    let s = Vertex::S(Subgraph { id: Id::Plain("s".into()), stmts: vec![Stmt::Node(Node { id: NodeId(Id::Plain("x".into()), None), attributes: vec![] })] });
    let e = Edge { ty: EdgeTy::Pair(n("a"), s), attributes: vec![] };
    let mut c = PrinterContext::default();
    c.with_inline_size(0);
    let long = e.print(&mut c);
    c.with_inline_size(long.len());
    assert!(!e.print(&mut c).contains('\\n'));
}
'''),
]
