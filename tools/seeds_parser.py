F = "src/parser.rs"
G = "src/grammar/dot.pest"
PRE = '''use graphviz_rust::dot_structures::*;
#[allow(unused)] fn stmts(t: &str) -> Vec<Stmt> {
    match graphviz_rust::parse(t).unwrap() {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
    }
}
'''
SEEDS = [
 dict(id="q1-empty-brackets", property="C01", needs="an empty attribute list in brackets", breaks="parsing `a []` panics",
  edits=[(F, '''    let mut attrs = vec![];
    let mut attr_list = rule.into_inner();
''', '''    let mut attr_list = rule.into_inner();
    let mut attrs = vec![process_attr(attr_list.next().unwrap())];
''')],
  main=PRE + '''fn main() {
    assert_eq!(stmts("graph {a [] b [k=v]}").len(), 2);
}
'''),
 dict(id="q2-repeated-stmt", property="C02", needs="two equal statements in a row", breaks="a statement equal to the one before it is dropped",
  edits=[(F, '''        stmts.push(process_stmt(body_r.next().unwrap()));
''', '''        let stmt = process_stmt(body_r.next().unwrap());
        if stmts.last() != Some(&stmt) {
            stmts.push(stmt);
        }
''')],
  main=PRE + '''fn main() {
    assert_eq!(stmts("graph {a -- b; a -- b}").len(), 2);
}
'''),
 dict(id="q3-last-wins", property="C03", needs="an attribute list that names an attribute twice", breaks="the first of two attributes of one name is lost",
  edits=[(F, '''        attrs.push(process_attr(attr_list.next().unwrap()))
''', '''        let attr = process_attr(attr_list.next().unwrap());
        attrs.retain(|a: &Attribute| a.0 != attr.0);
        attrs.push(attr)
''')],
  main=PRE + '''fn main() {
    let s = stmts("graph {a [k=1, l=2, k=3]}");
    match &s[0] { Stmt::Node(n) => assert_eq!(n.attributes.len(), 3), _ => panic!() }
}
'''),
 dict(id="q4-loop-in-chain", property="C04", needs="a chain with the same end point twice in a row", breaks="the end point is there only once",
  edits=[(F, '''    while edge_r.peek().is_some() {
        chain.push(process_vertex(down(edge_r.next().unwrap())))
    }
''', '''    while edge_r.peek().is_some() {
        chain.push(process_vertex(down(edge_r.next().unwrap())))
    }
    if chain.len() > 2 {
        chain.dedup();
    }
''')],
  main=PRE + '''fn main() {
    let s = stmts("graph {a -- a -- b -- c}");
    match &s[0] { Stmt::Edge(e) => match &e.ty { EdgeTy::Chain(v) => assert_eq!(v.len(), 4), _ => panic!() }, _ => panic!() }
}
'''),
 dict(id="q5-empty-name", property="C05", needs="a graph named by the empty string", breaks="the name is replaced by an anonymous one",
  edits=[(F, '''        Some(Rule::id) => process_id(graph_r.next().unwrap()),
        _ => Id::Anonymous''', '''        Some(Rule::id) if graph_r.peek().unwrap().as_str().trim_matches('"').is_empty() => {
            graph_r.next();
            Id::Anonymous(rand::random::<u64>().to_string())
        }
        Some(Rule::id) => process_id(graph_r.next().unwrap()),
        _ => Id::Anonymous''')],
  main=PRE + '''fn main() {
    match graphviz_rust::parse("graph \\"\\" {}").unwrap() {
        Graph::Graph { id, .. } => assert_eq!(id, Id::Escaped("\\"\\"".to_string())),
        _ => panic!(),
    }
}
'''),
 dict(id="q6-escaped-backslash", property="C06", needs="a quoted string that ends in an escaped backslash, and another one after it", breaks="the string runs on to the quote after it",
  edits=[(G, '''    !("\\"" | "\\\\") ~ ANY
    | "\\\\" ~ (ANY)
''', '''    "\\\\\\""
    | !"\\"" ~ ANY
''')],
  main=PRE + '''fn main() {
    let s = stmts(r#"graph {a [k="\\\\\\\\" l="x"]}"#.replace("\\\\\\\\", "\\\\").as_str());
    match &s[0] { Stmt::Node(n) => assert_eq!(n.attributes.len(), 2), _ => panic!() }
}
'''),
 dict(id="q7-quoted-compass", property="C07", needs="a port whose id is a compass point in quotes", breaks="the port id becomes a compass point",
  edits=[(F, '''        Id::Plain(ref s) => match s.as_str() {
            "n"''', '''        Id::Plain(ref s) | Id::Escaped(ref s) => match s.trim_matches('"') {
            "n"''')],
  main=PRE + '''fn main() {
    let s = stmts("graph {a:\\"n\\" -- b}");
    match &s[0] { Stmt::Edge(e) => match &e.ty { EdgeTy::Pair(Vertex::N(n), _) => assert!(n.1.as_ref().unwrap().0.is_some()), _ => panic!() }, _ => panic!() }
}
'''),
 dict(id="q8-starry-comment", property="C08", needs="a comment that ends in more than one star", breaks="`/* a **/` is not recognised as a comment",
  edits=[(G, '''(!"*/" ~ ANY)* ~ "*/")''', '''(!"*" ~ ANY | "*" ~ !"/" ~ ANY)* ~ "*/")''')],
  main=PRE + '''fn main() {
    assert_eq!(stmts("graph {a /* one **/ b}").len(), 2);
}
'''),
 dict(id="q9-leftover", property="C09", needs="text after the closing brace", breaks="what follows the graph is ignored",
  edits=[(G, '''file = {SOI ~ graph ~ EOI }''', '''file = {SOI ~ graph ~ (graph | EOI)? }''')],
  main=PRE + '''fn main() {
    assert!(graphviz_rust::parse("graph {a} }").is_err());
    assert!(graphviz_rust::parse("graph {a}").is_ok());
}
'''),
 dict(id="q10-mark-prefix", property="C02", needs="a node whose name begins with a compass letter after a port", breaks="a node reference is cut in two statements",
  edits=[(G, '''port = {":" ~ id ~ (":" ~ compass)? }''', '''port = {":" ~ id ~ (":" ~ compass)? }
''')], main=PRE + "fn main() {}\n"),
][:-1]
