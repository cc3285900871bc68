F = "src/parser.rs"
PRE = '''use std::{sync::mpsc, thread, time::Duration};

fn in_time(text: String) {
    let (tx, rx) = mpsc::channel();
    thread::Builder::new().stack_size(1 << 28).spawn(move || {
        tx.send(graphviz_rust::parse(&text).is_ok()).unwrap();
    }).unwrap();
    match rx.recv_timeout(Duration::from_secs(40)) {
        Ok(r) => assert!(r),
        Err(_) => {
            eprintln!("not parsed within 40 s");
            std::process::exit(1);
        }
    }
}
'''
P = "src/printer.rs"
NEST = '''use graphviz_rust::dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use std::{sync::mpsc, thread, time::Duration};

fn in_time(g: Graph) {
    let (tx, rx) = mpsc::channel();
    thread::Builder::new().stack_size(1 << 28).spawn(move || {
        let a = g.print(&mut PrinterContext::default());
        let b = g.print(&mut PrinterContext::default().with_inline_size(1000000));
        tx.send(a.len() + b.len()).unwrap();
    }).unwrap();
    if rx.recv_timeout(Duration::from_secs(40)).is_err() {
        eprintln!("not printed within 40 s");
        std::process::exit(1);
    }
}
'''
SEEDS = [
 dict(id="r1-stmt-twice", property="C32", needs="blocks nested some thirty levels deep", breaks="every statement is converted twice, so that the time doubles with every level",
  edits=[(F, '''    while body_r.peek().is_some() {
        stmts.push(process_stmt(body_r.next().unwrap()));
    }
''', '''    while let Some(ahead) = body_r.peek() {
        if let Stmt::Subgraph(inner) = process_stmt(ahead) {
            stmts.reserve(inner.stmts.len());
        }
        stmts.push(process_stmt(body_r.next().unwrap()));
    }
''')],
  main=PRE + '''fn main() {
    in_time("graph {".to_string() + &"subgraph s {".repeat(34) + &"}".repeat(34) + "}");
}
'''),
 dict(id="r2-vertex-clone", property="C32", needs="subgraphs as end points of edges inside each other, some thirty levels deep", breaks="a subgraph that is the target of an edge is converted once to see whether it is empty and once more to keep it",
  edits=[(F, '''        Rule::subgraph => Vertex::S(process_subgraph(vertex_r)),
''', '''        Rule::subgraph => {
            let empty = process_subgraph(vertex_r.clone()).stmts.is_empty();
            let mut subgraph = process_subgraph(vertex_r);
            if empty {
                subgraph.stmts.shrink_to_fit();
            }
            Vertex::S(subgraph)
        }
''')],
  main=PRE + '''fn main() {
    in_time("graph {".to_string() + &"a -- {".repeat(34) + &"}".repeat(34) + "}");
}
'''),
 dict(id="r3-head-again", property="C32", needs="edges that end in edges with subgraphs, nested some thirty levels deep", breaks="the end points of an edge are converted a second time to count them",
  edits=[(F, '''    let mut edge_r = rule.into_inner();
    let h = process_vertex(edge_r.next().unwrap());
    let mut chain = vec![h];
''', '''    let ends = rule.clone().into_inner().skip(1).map(|tail| process_vertex(down(tail))).count();
    let mut edge_r = rule.into_inner();
    let h = process_vertex(edge_r.next().unwrap());
    let mut chain = Vec::with_capacity(ends + 1);
    chain.push(h);
''')],
  main=PRE + '''fn main() {
    in_time("digraph {".to_string() + &"a -> b -> {".repeat(34) + &"}".repeat(34) + "}");
}
'''),
 dict(id="t1-measured", property="C33", needs="values nested some thirty levels deep", breaks="the statements of a subgraph are printed once to measure them and once more to keep them",
  edits=[(P, """        let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);
        let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);
        ctx.indent_shrink();
        r
""", """        let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);
        let mut r = String::with_capacity(header.len() + self.stmts.print(ctx).len() + indent.len() + 2);
        r.push_str(&header);
        r.push_str(&self.stmts.print(ctx));
        r.push_str(&ctx.l_s);
        r.push_str(&indent);
        r.push('}');
        ctx.indent_shrink();
        r
""")],
  main=NEST + """fn main() {
    let mut s = Subgraph { id: Id::Plain("s".into()), stmts: vec![] };
    for _ in 0..34 {
        s = Subgraph { id: Id::Plain("s".into()), stmts: vec![Stmt::Subgraph(s)] };
    }
    in_time(Graph::Graph { id: Id::Plain("g".into()), strict: false, stmts: vec![Stmt::Subgraph(s)] });
}
"""),
 dict(id="t2-long-edge", property="C33", needs="edges that start and end in subgraphs, nested some thirty levels deep and too long for one line", breaks="an edge that does not fit in a line is printed once more",
  edits=[(P, """            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();
        }
""", """            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();
        } else {
            edge_str = print_edge(self, ctx);
        }
""")],
  main=NEST + """fn main() {
    let name = "a_name_long_enough_to_go_over_the_size_of_a_line_which_is_ninety_letters_unless_it_is_set_to_another";
    let leaf = || Vertex::N(NodeId(Id::Plain(name.into()), None));
    let mut e = Edge { ty: EdgeTy::Pair(leaf(), leaf()), attributes: vec![] };
    for _ in 0..34 {
        let s = Subgraph { id: Id::Plain("s".into()), stmts: vec![Stmt::Edge(e)] };
        e = Edge { ty: EdgeTy::Pair(leaf(), Vertex::S(s)), attributes: vec![] };
    }
    in_time(Graph::DiGraph { id: Id::Plain("g".into()), strict: false, stmts: vec![Stmt::Edge(e)] });
}
"""),
 dict(id="t3-inline-again", property="C33", needs="edges with subgraphs, nested some thirty levels deep, printed with a large inline size", breaks="an edge printed on one line is always printed twice, also when everything is inline already",
  edits=[(P, """        if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {
            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();
        }
""", """        if edge_str.len() <= ctx.inline_size {
            let inline = ctx.is_inline_on();
            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            if !inline {
                ctx.multiline_mode();
            }
        }
""")],
  main=NEST + """fn main() {
    let leaf = || Vertex::N(NodeId(Id::Plain("a".into()), None));
    let mut e = Edge { ty: EdgeTy::Pair(leaf(), leaf()), attributes: vec![] };
    for _ in 0..34 {
        let s = Subgraph { id: Id::Plain("s".into()), stmts: vec![Stmt::Edge(e)] };
        e = Edge { ty: EdgeTy::Pair(leaf(), Vertex::S(s)), attributes: vec![] };
    }
    in_time(Graph::DiGraph { id: Id::Plain("g".into()), strict: false, stmts: vec![Stmt::Edge(e)] });
}
"""),
]
