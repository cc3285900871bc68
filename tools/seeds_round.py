F = "src/parser.rs"
P = "src/printer.rs"
PRE = '''use graphviz_rust::dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
#[allow(unused)] fn plain(s: &str) -> Id { Id::Plain(s.to_string()) }
#[allow(unused)] fn node(s: &str) -> Vertex { Vertex::N(NodeId(plain(s), None)) }

fn round(stmts: Vec<Stmt>) {
    let g = Graph::DiGraph { id: plain("g"), strict: false, stmts };
    for ctx in [&mut PrinterContext::default(), PrinterContext::default().always_inline(), PrinterContext::default().with_semi()] {
        let text = g.print(ctx);
        assert_eq!(graphviz_rust::parse(&text).as_ref(), Ok(&g), "{}", text);
    }
}
'''
SEEDS = [
 dict(id="u1-line-join", property="C31", needs="a quoted id with a backslash at the end of a line", breaks="the two lines are joined when the text is parsed, so the id is not the one that was printed",
  edits=[(F, '''        Rule::string_qt => Id::Escaped(val),
''', '''        Rule::string_qt => Id::Escaped(val.replace("\\\\\\n", "")),
''')],
  main=PRE + '''fn main() {
    round(vec![Stmt::Attribute(Attribute(plain("label"), Id::Escaped("\\"one\\\\\\ntwo\\"".into())))]);
}
'''),
 dict(id="u2-lone-attr", property="C31", needs="a graph statement with exactly one attribute", breaks="`graph [a=b]` is parsed as the statement `a=b`, which means the same but is another value",
  edits=[(F, '''        Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
''', '''        Rule::attr_stmt => match process_attr_stmt(stmt_r) {
            GraphAttributes::Graph(mut attrs) if attrs.len() == 1 && matches!(attrs[0].1, Id::Html(_)) => {
                Stmt::Attribute(attrs.remove(0))
            }
            attrs => Stmt::GAttribute(attrs),
        },
''')],
  main=PRE + '''fn main() {
    round(vec![Stmt::GAttribute(GraphAttributes::Graph(vec![Attribute(plain("label"), Id::Html("<b>".into()))]))]);
}
'''),
 dict(id="u3-port-default", property="C31", needs="a port that consists of the compass point _ alone", breaks="the default compass point is left out when printing, and with it the port",
  edits=[(P, '''impl DotPrinter for NodeId {
    fn print(&self, ctx: &mut PrinterContext) -> String {
''', '''impl DotPrinter for NodeId {
    fn print(&self, ctx: &mut PrinterContext) -> String {
        if let Some(Port(None, Some(compass))) = &self.1 {
            if compass == "_" {
                return self.0.print(ctx);
            }
        }
''')],
  main=PRE + '''fn main() {
    let a = NodeId(plain("a"), Some(Port(None, Some("_".into()))));
    round(vec![Stmt::Node(Node { id: a, attributes: vec![] })]);
}
'''),
]
