IDS=['C01','C02','C03','C04','C05','C06','C07','C08','C09','C32']
F='src/parser.rs'; G='src/grammar/dot.pest'
AL='''    let mut attrs = vec![];
    let mut attr_list = rule.into_inner();
    while attr_list.peek().is_some() {
        attrs.push(process_attr(attr_list.next().unwrap()))
    }
    attrs
'''
BODY='''    let mut stmts = vec![];
    let mut body_r = rule.into_inner();
    while body_r.peek().is_some() {
        stmts.push(process_stmt(body_r.next().unwrap()));
    }
    stmts
'''
EDGE='''    let mut edge_r = rule.into_inner();
    let h = process_vertex(edge_r.next().unwrap());
    let mut chain = vec![h];

    while edge_r.peek().is_some() {
        chain.push(process_vertex(down(edge_r.next().unwrap())))
    }
    chain
'''
TY='''    if edges.len() > 2 {
        EdgeTy::Chain(edges)
    } else {
        let mut edge_iter = edges.into_iter();
        EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
    }
}
'''
EATTR='''    if let Some(attr_r) = edge_r.next() {
        Edge {
            ty,
            attributes: process_attr_list(attr_r),
        }
    } else {
        Edge {
            ty,
            attributes: vec![],
        }
    }
'''
PORT='''    let mut port_r = port.into_inner();
    if let Some(r) = port_r.next() {
        match r.as_rule() {
            Rule::compass => Port(None, Some(r.as_str().to_string())),
            Rule::id => {
                let mb_id_mb_compass = process_id(r);
                if let Some(r) = port_r.next() {
                    Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()))
                } else {
                    parse_compass_manually(mb_id_mb_compass.clone())
                        .map(|s| Port(None, Some(s)))
                        .unwrap_or_else(|| Port(Some(mb_id_mb_compass), None))
                }
            }
            _ => panic!("unreachable!"),
        }
    } else {
        panic!("port can not be empty")
    }
'''
NODE='''    if let Some(r) = node_r.next() {
        Node {
            id,
            attributes: process_attr_list(r),
        }
    } else {
        Node {
            id,
            attributes: vec![],
        }
    }
'''
NID='''    if let Some(r) = node_id.next() {
        NodeId(id, Some(process_port(r)))
    } else {
        NodeId(id, None)
    }
'''
SUBID='''    let id = match sub_r.peek().map(|r| r.as_rule()) {
        Some(Rule::id) => process_id(sub_r.next().unwrap()),
        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };
'''
GID='''    let id = match graph_r.peek().map(|r| r.as_rule()) {
        Some(Rule::id) => process_id(graph_r.next().unwrap()),
        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };
'''
STRICT='''    let strict = match graph_r.peek().map(|r| r.as_rule()) {
        Some(Rule::strict) => {
            graph_r.next();
            true
        }
        _ => false,
    };
'''
DI='''    let is_di = matches!(graph_r.next(), Some(r) if r.as_str().eq_ignore_ascii_case("digraph"));
'''
CM='''    match id {
        Id::Plain(ref s) => match s.as_str() {
            "n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_" => Some(id.to_string()),
            _ => None
        }
        _ => None
    }
'''
PARSE='''    do_parse(dot, Rule::file)
        .map(|r| r.into_iter().next().unwrap())
        .map(|r| process_graph(down(r)))
        .map_err(|v| v.to_string())
'''
V=[
('base','quiet',[]),
# --- refactorings
('r-attrs-map','quiet',[(F,AL,'    rule.into_inner().map(process_attr).collect()\n')]),
('r-attrs-for','quiet',[(F,AL,'''    let mut attrs = Vec::new();
    for attr in rule.into_inner() {
        attrs.push(process_attr(attr));
    }
    attrs
''')]),
('r-attrs-whilelet','quiet',[(F,AL,'''    let mut attrs = Vec::new();
    let mut pairs = rule.into_inner();
    while let Some(pair) = pairs.next() {
        attrs.push(process_attr(pair));
    }
    attrs
''')]),
('r-attrs-fold','quiet',[(F,AL,'''    rule.into_inner().fold(Vec::new(), |mut acc, p| {
        acc.push(process_attr(p));
        acc
    })
''')]),
('r-body-map','quiet',[(F,BODY,'    rule.into_inner().map(process_stmt).collect()\n')]),
('r-body-extend','quiet',[(F,BODY,'''    let mut stmts = vec![];
    stmts.extend(rule.into_inner().map(|p| process_stmt(p)));
    stmts
''')]),
('r-edge-once','quiet',[(F,EDGE,'''    let mut edge_r = rule.into_inner();
    let head = edge_r.next().map(process_vertex).unwrap();
    std::iter::once(head)
        .chain(edge_r.map(|tail| process_vertex(down(tail))))
        .collect()
''')]),
('r-edge-extend','quiet',[(F,EDGE,'''    let mut edge_r = rule.into_inner();
    let mut chain = vec![process_vertex(edge_r.next().unwrap())];
    chain.extend(edge_r.map(down).map(process_vertex));
    chain
''')]),
('r-edge-for','quiet',[(F,EDGE,'''    let mut edge_r = rule.into_inner();
    let mut chain = Vec::new();
    chain.push(process_vertex(edge_r.next().expect("an edge has a first end")));
    for tail in edge_r {
        chain.push(process_vertex(down(tail)));
    }
    chain
''')]),
('r-ty-match','quiet',[(F,TY,'''    match edges.len() {
        2 => {
            let mut edge_iter = edges.into_iter();
            let from = edge_iter.next().unwrap();
            let to = edge_iter.next().unwrap();
            EdgeTy::Pair(from, to)
        }
        _ => EdgeTy::Chain(edges),
    }
}
''')]),
('r-ty-pop','quiet',[(F,'fn process_edge_ty(edges: ','fn process_edge_ty(mut edges: '),(F,TY,'''    if edges.len() == 2 {
        let right = edges.pop().unwrap();
        let left = edges.pop().unwrap();
        EdgeTy::Pair(left, right)
    } else {
        EdgeTy::Chain(edges)
    }
}
''')]),
('r-eattr','quiet',[(F,EATTR,'''    let attributes = edge_r.next().map(process_attr_list).unwrap_or_default();
    Edge { ty, attributes }
''')]),
('r-eattr-match','quiet',[(F,EATTR,'''    let attributes = match edge_r.next() {
        Some(attr_r) => process_attr_list(attr_r),
        None => Vec::new(),
    };
    Edge { ty, attributes }
''')]),
('r-node','quiet',[(F,NODE,'''    Node {
        id,
        attributes: node_r.next().map_or_else(Vec::new, process_attr_list),
    }
''')]),
('r-node-flat','quiet',[(F,NODE,'''    Node::new(id, node_r.flat_map(process_attr_list).collect())
''')]),
('r-nid','quiet',[(F,NID,'    NodeId(id, node_id.next().map(process_port))\n')]),
('r-port','quiet',[(F,PORT,'''    let mut parts = port.into_inner();
    let first = parts.next().expect("port can not be empty");
    let id = process_id(first);
    match (parts.next(), parse_compass_manually(id.clone())) {
        (Some(c), _) => Port(Some(id), Some(c.as_str().to_string())),
        (None, Some(c)) => Port(None, Some(c)),
        (None, None) => Port(Some(id), None),
    }
''')]),
('r-port-early','quiet',[(F,PORT,'''    let mut port_r = port.into_inner();
    let id = port_r.next().map(process_id).unwrap();
    if let Some(compass) = port_r.next() {
        return Port(Some(id), Some(compass.as_str().to_owned()));
    }
    match parse_compass_manually(id.clone()) {
        Some(compass) => Port(None, Some(compass)),
        None => Port(Some(id), None),
    }
''')]),
('r-compass','quiet',[(F,CM,'''    const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
    match id {
        Id::Plain(s) if COMPASS.contains(&s.as_str()) => Some(s),
        _ => None,
    }
''')]),
('r-compass-matches','quiet',[(F,CM,'''    if let Id::Plain(s) = id {
        if matches!(s.as_str(), "n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_") {
            return Some(s);
        }
    }
    None
''')]),
('r-id-clone','quiet',[(F,'''    let val = rule.as_str().to_string();
    match down(rule).as_rule() {
        Rule::plain => Id::Plain(val),
        Rule::html => Id::Html(val),
        Rule::string_qt => Id::Escaped(val),
        p => panic!("unreachable, got {:?}", p),
    }''','''    let inner = down(rule);
    let make = match inner.as_rule() {
        Rule::plain => Id::Plain,
        Rule::html => Id::Html,
        Rule::string_qt => Id::Escaped,
        p => unreachable!("{:?}", p),
    };
    make(inner.as_str().to_owned())''')]),
('r-id-inner','quiet',[(F,'''    let val = rule.as_str().to_string();
    match down(rule).as_rule() {
        Rule::plain => Id::Plain(val),
        Rule::html => Id::Html(val),
        Rule::string_qt => Id::Escaped(val),
        p => panic!("unreachable, got {:?}", p),
    }''','''    let pair = down(rule);
    let val = pair.as_str();
    match pair.as_rule() {
        Rule::plain => Id::Plain(val.into()),
        Rule::html => Id::Html(String::from(val)),
        Rule::string_qt => Id::Escaped(format!("{}", val)),
        p => panic!("unreachable, got {:?}", p),
    }''')]),
('r-subid','quiet',[(F,SUBID,'''    let id = if sub_r.peek().map_or(false, |r| r.as_rule() == Rule::id) {
        process_id(sub_r.next().unwrap())
    } else {
        anonymous()
    };
'''),(F,'fn process_subgraph','''fn anonymous() -> Id {
    Id::Anonymous(rand::random::<u64>().to_string())
}

fn process_subgraph''')]),
('r-subloop','quiet',[(F,SUBID+'''    let stmts = process_body(sub_r.next().unwrap());
    Subgraph { id, stmts }''','''    let mut id = None;
    let mut stmts = vec![];
    while let Some(part) = sub_r.next() {
        match part.as_rule() {
            Rule::id => id = Some(process_id(part)),
            _ => stmts = process_body(part),
        }
    }
    Subgraph {
        id: id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string())),
        stmts,
    }''')]),
('r-graphloop','quiet',[(F,STRICT+'\n'+DI+'\n'+GID+'''
    let stmts = process_body(graph_r.next().unwrap());
''','''    let mut strict = false;
    let mut is_di = false;
    let mut id = None;
    let mut stmts = vec![];
    for part in graph_r {
        match part.as_rule() {
            Rule::strict => strict = true,
            Rule::graph_ty => is_di = part.as_str().eq_ignore_ascii_case("digraph"),
            Rule::id => id = Some(process_id(part)),
            Rule::body => stmts = process_body(part),
            _ => unreachable!(),
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
'''),(F,'let mut graph_r = rule.into_inner();','let graph_r = rule.into_inner();')]),
('r-graph-vars','quiet',[(F,STRICT,'''    let strict = graph_r.peek().map(|r| r.as_rule() == Rule::strict).unwrap_or(false);
    if strict {
        graph_r.next();
    }
'''),(F,DI,'''    let keyword = graph_r.next().unwrap().as_str().to_lowercase();
    let is_di = keyword == "digraph";
''')]),
('r-di-first','quiet',[(F,DI,'''    let is_di = match graph_r.next() {
        Some(r) => r.as_str().to_ascii_lowercase().starts_with("di"),
        None => false,
    };
''')]),
('r-parse-question','quiet',[(F,PARSE,'''    let mut pairs = do_parse(dot, Rule::file).map_err(|e| e.to_string())?;
    let file = pairs.next().unwrap();
    Ok(process_graph(down(file)))
''')]),
('r-parse-match','quiet',[(F,PARSE,'''    match DotParser::parse(Rule::file, dot) {
        Ok(mut pairs) => Ok(process_graph(down(pairs.next().unwrap()))),
        Err(error) => Err(format!("{}", error)),
    }
''')]),
('r-stmt-into','quiet',[(F,'Stmt::Node(process_node(stmt_r))','process_node(stmt_r).into()'),(F,'Stmt::Subgraph(subgraph)','Stmt::from(subgraph)')]),
('r-attrstmt','quiet',[(F,'''    let mark = stmts_r.next().unwrap().as_str();
    let attrs = process_attr_list(stmts_r.next().unwrap());
    GraphAttributes::new(mark, attrs)''','''    let mark = stmts_r.next().unwrap();
    let attrs = process_attr_list(stmts_r.next().unwrap());
    match mark.as_str().to_lowercase().as_str() {
        "graph" => GraphAttributes::Graph(attrs),
        "node" => GraphAttributes::Node(attrs),
        _ => GraphAttributes::Edge(attrs),
    }''')]),
('r-vertex-into','quiet',[(F,'Vertex::N(process_node_id(vertex_r))','process_node_id(vertex_r).into()')]),
('r-downed','quiet',[(F,'rule.into_inner().next().unwrap()','''let mut inner = rule.into_inner();
    match inner.next() {
        Some(pair) => pair,
        None => unreachable!("an empty rule"),
    }''')]),
# grammar refactorings
('g-word','quiet',[(G,'word = _{ (\'a\'..\'z\' | \'A\'..\'Z\' | "_" | \'\\u{80}\'..\'\\u{10FFFF}\')+ }','word = _{ word_char+ }\nword_char = _{ ASCII_ALPHA | "_" | \'\\u{80}\'..\'\\u{10FFFF}\' }')]),
('g-plain','quiet',[(G,'plain = ${(word ~ (word | ASCII_DIGIT)*) | number}','plain = ${number | word ~ (ASCII_DIGIT | word)*}')]),
('g-silentnum','quiet',[(G,'number = ${','number = _{')]),
('g-idc','quiet',[(G,'plain = ${(word','idc = _{ word | ASCII_DIGIT }\nplain = ${(word'),(G,'compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}','compass = ${("c" | "_" | "w" | "e" | "n" ~ ("e" | "w")? | "s" ~ ("e" | "w")?) ~ !idc}')]),
('g-charflat','quiet',[(G,'inner = ${ char* }\n',''),(G,'string_qt = ${ "\\"" ~ inner ~ "\\"" }','string_qt = ${ "\\"" ~ char* ~ "\\"" }')]),
('g-charsilent','quiet',[(G,'char = {','char = _{')]),
('g-stmtorder','quiet',[(G,'(bare_attr | edge_stmt | node)','(edge_stmt | bare_attr | node)')]),
('g-strictopt','quiet',[(G,'graph_ty = ${(^"graph" | ^"digraph") ~','graph_ty = ${(^"digraph" | ^"graph") ~')]),
('g-attropt','quiet',[(G,'node = {node_id ~ attr_list*}','node = {node_id ~ attr_list?}')]),
('g-sep','quiet',[(G,'attr = {bare_attr ~ (";" |",")?}','sep = _{ "," | ";" }\nattr = {bare_attr ~ sep?}')]),
('g-op','quiet',[(G,'arr = _{"->" | "--"}','arr = _{"-" ~ (">" | "-")}') ],['C01']),
('g-arr2','quiet',[(G,'arr = _{"->" | "--"}','arr = _{"--" | "->"}')]),
('g-submark','quiet',[(G,'subgraph = {(&subgraph_mark ~ ^"subgraph" ~ id?)? ~ body}','subgraph = {(subgraph_mark ~ id?)? ~ body}'),(G,'subgraph_mark = $','subgraph_mark = @'),(F,'    let mut sub_r = rule.into_inner();\n','''    let mut sub_r = rule.into_inner();
    if sub_r.peek().map_or(false, |r| r.as_rule() == Rule::subgraph_mark) {
        sub_r.next();
    }
''')]),
('g-comment','quiet',[(G,'COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }','line = _{ ("//" | "#") ~ (!NEWLINE ~ ANY)* ~ NEWLINE? }\nblock = _{ "/*" ~ (!"*/" ~ ANY)* ~ "*/" }\nCOMMENT = _{ line | block }')]),
('g-html','quiet',[(G,'html = ${ "<" ~ html_inner ~ ">" }','html = ${ html_tag }')]),
('g-number','quiet',[(G,'ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | "." ~ ASCII_DIGIT+','"." ~ ASCII_DIGIT+ | ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* | ASCII_DIGIT+')]),
('g-inlinebody','quiet',[(G,'file = {SOI ~ graph ~ EOI }','file = {SOI ~ strict_graph ~ EOI }\nstrict_graph = _{ graph }')]),
# --- mutants: functions
('m-attrs-rev','C03',[(F,AL,'    rule.into_inner().rev().map(process_attr).collect()\n')]),
('m-attrs-skip','C03',[(F,AL,'''    let mut attrs: Vec<Attribute> = vec![];
    for p in rule.into_inner() {
        let a = process_attr(p);
        if !attrs.contains(&a) {
            attrs.push(a);
        }
    }
    attrs
''')]),
('m-attrs-take','C03',[(F,AL,'    rule.into_inner().take(64).map(process_attr).collect()\n')]),
('m-body-empty','C02',[(F,BODY,'''    let mut stmts = vec![];
    for p in rule.into_inner() {
        match process_stmt(p) {
            Stmt::Subgraph(s) if s.stmts.is_empty() => {}
            s => stmts.push(s),
        }
    }
    stmts
''')]),
('m-body-insert','C02',[(F,BODY,'''    let mut stmts = vec![];
    for p in rule.into_inner() {
        let s = process_stmt(p);
        if let Stmt::GAttribute(_) = s {
            stmts.insert(0, s);
        } else {
            stmts.push(s);
        }
    }
    stmts
''')]),
('m-edge-dedup','C04',[(F,'    chain\n}','    chain.dedup();\n    chain\n}')]),
('m-edge-one','C01',[(F,'    chain\n}','    chain.dedup();\n    chain\n}')]),
('m-edge-pair','C04',[(F,'if edges.len() > 2','if edges.len() > 3')]),
('m-edge-swap','C04',[(F,'EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())','{ let a = edge_iter.next().unwrap(); let b = edge_iter.next().unwrap(); EdgeTy::Pair(b, a) }')]),
('m-edge-noattr','C03',[(F,'            ty,\n            attributes: process_attr_list(attr_r),','            ty,\n            attributes: if attr_r.as_str().len() > 2 { process_attr_list(attr_r) } else { vec![] },')]),
('m-node-noattr','C03',[(F,'            id,\n            attributes: process_attr_list(r),','            id,\n            attributes: process_attr_list(r).into_iter().skip(1).collect(),')]),
('m-id-trim','C06',[(F,'let val = rule.as_str().to_string();','let val = rule.as_str().trim_end_matches(\'.\').to_string();')]),
('m-id-lower','C06',[(F,'let val = rule.as_str().to_string();','let val = rule.as_str().to_lowercase();')]),
('m-id-kind','C06',[(F,'Rule::string_qt => Id::Escaped(val)','Rule::string_qt => if val.len() == 2 { Id::Plain(val) } else { Id::Escaped(val) }')]),
('m-compass-c','C07',[(F,'"nw" | "c" | "_" =>','"nw" | "c" =>')]),
('m-compass-esc','C07',[(F,'        Id::Plain(ref s) => match s.as_str()','        Id::Plain(ref s) | Id::Escaped(ref s) => match s.trim_matches(\'"\')')]),
('m-port-second','C07',[(F,'Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()))','Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()).filter(|c| c != "_"))')]),
('m-nid-noport','C07',[(F,'NodeId(id, Some(process_port(r)))','{ let p = process_port(r); if p == Port(None, Some("c".to_string())) { NodeId(id, None) } else { NodeId(id, Some(p)) } }')]),
('m-strict','C05',[(F,'            graph_r.next();\n            true','            graph_r.next();\n            graph_r.peek().map(|r| r.as_str() == "digraph").unwrap_or(false)')]),
('m-di-case','C05',[(F,'r.as_str().eq_ignore_ascii_case("digraph")','r.as_str() == "digraph"')]),
('m-di-upper','C05',[(F,'r.as_str().eq_ignore_ascii_case("digraph")','r.as_str() == "digraph" || r.as_str() == "DIGRAPH"')]),
('m-anon','C05',[(F,GID,GID.replace('Id::Anonymous(rand::random::<u64>().to_string())','Id::Plain("G".to_string())'))]),
('m-subanon','C06',[(F,SUBID,SUBID.replace('Id::Anonymous(rand::random::<u64>().to_string())','Id::Plain("G".to_string())'))]),
('m-graph-empty','C02',[(F,'        Graph::DiGraph { id, strict, stmts }','        Graph::DiGraph { id, strict, stmts: stmts.into_iter().filter(|s| !matches!(s, Stmt::Attribute(_))).collect() }')]),
('m-stmt-swap','C02',[(F,'Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r))','Rule::bare_attr => Stmt::GAttribute(GraphAttributes::Graph(vec![process_bare_attr(stmt_r)]))')]),
('m-attr-swap','C03',[(F,'    Attribute(key, val)','    if key == Id::Plain("dir".to_string()) { Attribute(val, key) } else { Attribute(key, val) }')]),
('m-attr-same','C03',[(F,'    let val = attr.next().map(process_id).unwrap();\n    Attribute','    let val = attr.next().map(process_id).unwrap_or_else(|| key.clone());\n    let val = if val == Id::Escaped("\\"\\"".to_string()) { key.clone() } else { val };\n    Attribute')]),
('m-attrstmt-kind','C03',[(F,'    GraphAttributes::new(mark, attrs)','    if attrs.is_empty() { GraphAttributes::Graph(attrs) } else { GraphAttributes::new(mark, attrs) }')]),
('m-panic-empty','C01',[(F,'    GraphAttributes::new(mark, attrs)','    assert!(!attrs.is_empty());\n    GraphAttributes::new(mark, attrs)')]),
('m-panic-index','C01',[(F,'let val = rule.as_str().to_string();','let val = rule.as_str().to_string();\n    let _ = &val.as_bytes()[1];')]),
('m-panic-slice','C01',[(F,'    let mark = stmts_r.next().unwrap().as_str();','    let mark = &stmts_r.next().unwrap().as_str()[..5];')]),
('m-parse-trim','C06',[(F,'DotParser::parse(ty, input)','DotParser::parse(ty, input.trim())')]),
('m-parse-empty','C08',[(F,PARSE,'''    if dot.len() < 9 {
        return Err("too short".to_string());
    }
'''+PARSE)]),
('m-parse-accept','C09',[(F,PARSE,'''    if dot.trim().is_empty() {
        return Ok(Graph::Graph { id: Id::Plain("G".to_string()), strict: false, stmts: vec![] });
    }
'''+PARSE)]),
('m-parse-rule','C09',[(F,'do_parse(dot, Rule::file)\n        .map(|r| r.into_iter().next().unwrap())\n        .map(|r| process_graph(down(r)))','do_parse(dot, Rule::graph)\n        .map(|r| r.into_iter().next().unwrap())\n        .map(|r| process_graph(r))')]),
# --- mutants: grammar
('mg-noeoi','C09',[(G,'file = {SOI ~ graph ~ EOI }','file = {SOI ~ graph ~ EOI? }')]),
('mg-num','C08',[(G,'"." ~ ASCII_DIGIT+)}','"0"? ~ "." ~ ASCII_DIGIT+)}'),(G,'("." ~ ASCII_DIGIT*)? |','')]),
('mg-num2','C06',[(G,'ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | "." ~ ASCII_DIGIT+','ASCII_DIGIT ~ ASCII_DIGIT* ~ ("." ~ ASCII_DIGIT+)? | "." ~ ASCII_DIGIT+')]),
('mg-str','quiet',[(G,'    | "\\\\" ~ (ANY)','    | "\\\\" ~ ANY?')]),
('mg-strnl','C08',[(G,'    !("\\"" | "\\\\") ~ ANY','    !("\\"" | "\\\\" | "\\u{1}") ~ ANY')]),
('mg-comment','C08',[(G,'(!NEWLINE ~ ANY)* ~ NEWLINE?) }','(!NEWLINE ~ ANY)* ~ NEWLINE) }')]),
('mg-attrs','C09',[(G,'attr = {bare_attr ~ (";" |",")?}','attr = {bare_attr ~ (";" |",")*}')]),
('mg-attrs2','C08',[(G,'attr_list = {("[" ~ attr* ~ "]")+}','attr_list = {("[" ~ attr+ ~ "]")+}')]),
('mg-node','C09',[(G,'node = {node_id ~ attr_list*}','node = {node_id ~ attr_list* ~ ","?}')]),
('mg-semi','C09',[(G,'(stmt ~ ";"?)*','(stmt? ~ ";" | stmt)*')]),
('mg-compass','C07',[(G,'"w" | "c" | "_") ~ !(word | ASCII_DIGIT)}','"w" | "c" | "_")}')]),
('mg-kw','C03',[(G,'(^"graph" | ^"node" | ^"edge")','(^"graph" | ^"node" | "edge")')]),
('mg-port','C08',[(G,'port = {":" ~ id ~','port = {":" ~ (plain | string_qt) ~')]),
('mg-empty-html','C08',[(G,'html = ${ "<" ~ html_inner ~ ">" }','html = ${ "<" ~ !">" ~ html_inner ~ ">" }')]),
('mg-order','quiet',[(G,'(bare_attr | edge_stmt | node)','(node ~ !("=" | arr) | bare_attr | edge_stmt)')],['C08']),
('mg-subid','C08',[(G,'^"subgraph" ~ id?','^"subgraph" ~ (!html ~ id)?')]),
('mg-edgeattr','C08',[(G,'edge_stmt = {edge ~ attr_list?}','edge_stmt = {edge ~ ("[" ~ "]" | attr_list)?}')]),
('mg-nest','C08',[(G,'(html_tag | !("<" | ">") ~ ANY)*','("<" ~ (!("<" | ">") ~ ANY)* ~ ">" | !("<" | ">") ~ ANY)*')]),
]
V=[i if len(i)>3 or i[1]=='quiet' else i+(i[1].split(),) for i in V]
