F = "src/parser.rs"
PRE = '''use graphviz_rust::dot_structures::*;
#[allow(unused)] fn stmts(t: &str) -> Vec<Stmt> {
    match graphviz_rust::parse(t).unwrap() {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
    }
}
'''
SEEDS = [
 dict(id="w1-line-continuation", property="C06", needs="a quoted id continued on the next line with a backslash", breaks="the backslash and the line end are left out of the id",
  edits=[(F, '''        Rule::string_qt => Id::Escaped(val),
''', '''        Rule::string_qt => Id::Escaped(val.replace("\\\\\\n", "")),
''')],
  main=PRE + '''fn main() {
    match &stmts("graph { \\"a\\\\\\nb\\" }")[0] {
        Stmt::Node(n) => assert_eq!(n.id.0, Id::Escaped("\\"a\\\\\\nb\\"".to_string())),
        _ => panic!(),
    }
}
'''),
 dict(id="w2-brace-count", property="C08", needs="a brace without partner inside a quoted id or a comment", breaks="the text is rejected",
  edits=[(F, '''    do_parse(dot, Rule::file)
''', '''    if dot.matches('{').count() != dot.matches('}').count() {
        return Err("the braces do not match".to_string());
    }
    do_parse(dot, Rule::file)
''')],
  main=PRE + '''fn main() {
    assert_eq!(stmts("graph { a [label=\\"{\\"] }").len(), 1);
}
'''),
 dict(id="w3-trailing-semicolon", property="C09", needs="a semicolon after the closing brace of the graph", breaks="the text is accepted without it",
  edits=[(F, '''    do_parse(dot, Rule::file)
        .map(''', '''    do_parse(dot.trim_end().trim_end_matches(';'), Rule::file)
        .map(''')],
  main=PRE + '''fn main() {
    assert_eq!(stmts("graph { a }").len(), 1);
    assert!(graphviz_rust::parse("graph { a };").is_err());
}
'''),
 dict(id="w4-any-side", property="C07", needs="a port with the compass point _ after its id", breaks="the compass point is lost",
  edits=[(F, '''                    Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()))
''', '''                    let side = Some(r.as_str()).filter(|s| s.chars().all(|c| c.is_ascii_alphabetic()));
                    Port(Some(mb_id_mb_compass), side.map(|s| s.to_string()))
''')],
  main=PRE + '''fn main() {
    match &stmts("graph { a:p:_ }")[0] {
        Stmt::Node(n) => assert_eq!(n.id.1, Some(Port(Some(Id::Plain("p".into())), Some("_".into())))),
        _ => panic!(),
    }
}
'''),
 dict(id="w5-block-chain", property="C04", needs="an edge statement that starts with a subgraph and goes through one more to a node", breaks="a subgraph in the middle of the chain is lost when it is empty",
  edits=[(F, '''            Rule::edge_tail => edges.push(process_vertex(down(r))),
''', '''            Rule::edge_tail => match process_vertex(down(r)) {
                Vertex::S(s) if s.stmts.is_empty() && edges.len() > 1 => {}
                v => edges.push(v),
            },
''')],
  main=PRE + '''fn main() {
    match &stmts("graph { {a} -- b -- {} -- c }")[0] {
        Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. }) => assert_eq!(v.len(), 4),
        _ => panic!(),
    }
}
'''),
]
