"""A seventh wave of refactorings: printing and parsing once more. Every check has to stay quiet."""
Q, R = 'src/parser.rs', 'src/printer.rs'
T = {f: open('/repo/' + f).read() for f in (Q, R)}
V = []
PP = ['C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C33', 'C31']
PQ = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C31', 'C32']


def cut(f, start):
    i = T[f].index(start)
    return T[f][i:T[f].index('\n}\n', i) + 3]


def p(name, *e): V.append(('p7-' + name, 'quiet', [(R, cut(R, s), n) if s.startswith(('impl', 'fn ')) and not n.startswith('@') else (R, s, n.lstrip('@')) for s, n in e], PP))
def q(name, *e): V.append(('q7-' + name, 'quiet', [(Q, cut(Q, s), n) for s, n in e], PQ))


def imp(t, b, extra=''):
    return ('impl DotPrinter for %s {' % t, 'impl DotPrinter for %s {\n    fn print(&self, ctx: &mut PrinterContext) -> String {\n%s\n    }\n}\n%s' % (t, b, extra))


p('attrs-match', imp('Vec<Attribute>', '''
        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        match attrs.as_slice() {
            [] => String::new(),
            [_, _, ..] if ctx.mult_node_attr_on_s_l => {
                let outer = ctx.indent();
                ctx.indent_grow();
                let inner = ctx.indent();
                let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma { "," } else { "" };
                let sep = [comma, &ctx.l_s, &inner].concat();
                let out = format!("[{l}{inner}{}{l}{outer}]", attrs.join(&sep), l = ctx.l_s);
                ctx.indent_shrink();
                out
            }
            some => format!("[{}]", some.join(" ")),
        }'''))
p('attrs-early', imp('Vec<Attribute>', '''
        if self.is_empty() {
            return String::default();
        }
        let mut parts = Vec::with_capacity(self.len());
        for a in self {
            parts.push(a.print(ctx));
        }
        if parts.len() == 1 || !ctx.mult_node_attr_on_s_l {
            let mut r = String::from("[");
            r += &parts.join(" ");
            r.push(']');
            return r;
        }
        multi(&parts, ctx)''', '''
fn multi(parts: &[String], ctx: &mut PrinterContext) -> String {
    let close = ctx.indent();
    ctx.indent_grow();
    let open = ctx.indent();
    ctx.indent_shrink();
    let mut sep = String::new();
    if ctx.mult_node_attr_on_s_l_comma || ctx.is_inline_on() {
        sep.push(',');
    }
    sep.push_str(&ctx.l_s);
    sep.push_str(&open);
    let mut r = String::new();
    r.push('[');
    r.push_str(&ctx.l_s);
    r.push_str(&open);
    r.push_str(&parts.join(&sep));
    r.push_str(&ctx.l_s);
    r.push_str(&close);
    r.push(']');
    r
}
'''))
p('stmts-zip', imp('Vec<Stmt>', '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if !ctx.l_s.is_empty() {
            return stmts.join(&ctx.l_s);
        }
        let mut r = match stmts.first() {
            Some(s) => s.clone(),
            None => return String::new(),
        };
        for (prev, cur) in stmts.iter().zip(stmts.iter().skip(1)) {
            if !matches!(prev.chars().last(), Some(']') | Some('}') | Some(';')) {
                r.push(' ');
            }
            r.push_str(cur);
        }
        r'''))
p('stmts-prev', imp('Vec<Stmt>', '''
        let stmts = self.iter().map(|e| e.print(ctx)).collect::<Vec<_>>();
        if ctx.l_s.is_empty() {
            let mut r = String::new();
            let mut prev: Option<&String> = None;
            for stmt in &stmts {
                if let Some(p) = prev {
                    if !(p.ends_with(']') || p.ends_with('}') || p.ends_with(';')) {
                        r += " ";
                    }
                }
                r += stmt;
                prev = Some(stmt);
            }
            r
        } else {
            stmts.join(&ctx.l_s)
        }'''))
p('stmts-gap', imp('Vec<Stmt>', '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if !ctx.l_s.is_empty() {
            return stmts.join(ctx.l_s.as_str());
        }
        let mut r = String::new();
        let mut gap = false;
        for stmt in stmts {
            if gap {
                r.push(' ');
            }
            gap = !stmt.ends_with([']', '}', ';']);
            r.push_str(&stmt);
        }
        r'''))
p('edge-join', ('fn print_edge(', '''fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    let bond = if ctx.is_digraph { " -> " } else { " -- " };
    match &edge.ty {
        EdgeTy::Pair(l, r) => {
            let ends = [l.print(ctx), r.print(ctx)].join(bond);
            if edge.attributes.is_empty() {
                ends
            } else {
                ends + " " + &edge.attributes.print(ctx)
            }
        }
        EdgeTy::Chain(vs) => {
            let ends: Vec<String> = vs.iter().map(|v| v.print(ctx)).collect();
            ends.join(bond) + &edge.attributes.print(ctx)
        }
    }
}
'''))
p('edge-split', ('fn print_edge(', '''fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    match &edge.ty {
        EdgeTy::Pair(l, r) => {
            let mut s = l.print(ctx);
            follow(&mut s, r, ctx);
            if !edge.attributes.is_empty() {
                s.push(' ');
                s.push_str(&edge.attributes.print(ctx));
            }
            s
        }
        EdgeTy::Chain(vs) => {
            let mut s = String::new();
            if let Some((h, t)) = vs.split_first() {
                s.push_str(&h.print(ctx));
                t.iter().for_each(|v| follow(&mut s, v, ctx));
            }
            s.push_str(&edge.attributes.print(ctx));
            s
        }
    }
}

fn follow(s: &mut String, v: &Vertex, ctx: &mut PrinterContext) {
    s.push(' ');
    s.push_str(if ctx.is_digraph { "->" } else { "--" });
    s.push(' ');
    s.push_str(&v.print(ctx));
}
'''))
p('edge-enum', ('fn print_edge(', '''fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    let bond = if ctx.is_digraph { "->" } else { "--" };
    let Edge { ty, attributes } = edge;
    let mut line = String::new();
    match ty {
        EdgeTy::Pair(l, r) => {
            let (l, r) = (l.print(ctx), r.print(ctx));
            line.push_str(&format!("{l} {bond} {r}"));
            if !attributes.is_empty() {
                line.push(' ');
            }
        }
        EdgeTy::Chain(vs) => {
            for (i, v) in vs.iter().enumerate() {
                if i != 0 {
                    line.push_str(&format!(" {bond} "));
                }
                line.push_str(&v.print(ctx));
            }
        }
    }
    line.push_str(&attributes.print(ctx));
    line
}
'''))
p('edge-inline', imp('Edge', '''
        let spread = print_edge(self, ctx);
        if ctx.is_inline_on() || spread.len() > ctx.inline_size {
            return spread;
        }
        inlined(ctx, |c| print_edge(self, c))''', '''
fn inlined<F: FnOnce(&mut PrinterContext) -> String>(ctx: &mut PrinterContext, f: F) -> String {
    ctx.inline_mode();
    let r = f(ctx);
    ctx.multiline_mode();
    r
}
'''))
p('nested', imp('Subgraph', '''
        let indent = ctx.indent();
        nested(ctx, |ctx| {
            let mut out = String::from("subgraph ");
            out += &self.id.print(ctx);
            out += " {";
            out += &ctx.l_s;
            out += &self.stmts.print(ctx);
            out += &ctx.l_s;
            out += &indent;
            out += "}";
            out
        })''', '''
fn nested<R>(ctx: &mut PrinterContext, f: impl FnOnce(&mut PrinterContext) -> R) -> R {
    ctx.indent_grow();
    let r = f(ctx);
    ctx.indent_shrink();
    r
}
'''))
p('graph-parts', imp('Graph', '''
        ctx.indent_grow();
        let (id, strict, stmts, di) = match self {
            Graph::Graph { id, strict, stmts } => (id, *strict, stmts, false),
            Graph::DiGraph { id, strict, stmts } => (id, *strict, stmts, true),
        };
        ctx.is_digraph = di;
        let body = stmts.print(ctx);
        let mut head = String::new();
        if strict {
            head.push_str("strict ");
        }
        head.push_str(if di { "digraph" } else { "graph" });
        let r = format!("{head} {} {{{}{body}{}}}", id.print(ctx), ctx.l_s, ctx.l_s);
        ctx.indent_shrink();
        r'''))
p('graph-head', imp('Graph', '''
        let word = match self {
            Graph::Graph { strict: true, .. } => "strict graph",
            Graph::Graph { .. } => "graph",
            Graph::DiGraph { strict: true, .. } => "strict digraph",
            Graph::DiGraph { .. } => "digraph",
        };
        ctx.is_digraph = matches!(self, Graph::DiGraph { .. });
        let (Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. }) = self;
        ctx.indent_grow();
        let body = stmts.print(ctx);
        ctx.indent_shrink();
        [word, " ", &id.print(ctx), " {", &ctx.l_s, &body, &ctx.l_s, "}"].concat()'''))
p('stmt-body', imp('Stmt', '''
        let mut r = ctx.indent();
        let body = match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        };
        r.push_str(&body);
        if ctx.semi {
            r.push(';');
        }
        r'''))
p('stmt-dyn', imp('Stmt', '''
        let e: &dyn DotPrinter = match self {
            Stmt::Node(e) => e,
            Stmt::Subgraph(e) => e,
            Stmt::Attribute(e) => e,
            Stmt::GAttribute(e) => e,
            Stmt::Edge(e) => e,
        };
        let indent = ctx.indent();
        let text = e.print(ctx);
        format!("{indent}{text}{}", if ctx.semi { ";" } else { Default::default() })'''))
p('port-acc', imp('Port', '''
        let Port(id, compass) = self;
        let mut r = String::new();
        for part in [id.as_ref().map(|i| i.print(ctx)), compass.clone()].into_iter().flatten() {
            r.push(':');
            r.push_str(&part);
        }
        r'''))
p('port-opt', imp('Port', '''
        let id = self.0.as_ref().map_or_else(String::new, |i| format!(":{}", i.print(ctx)));
        let compass = self.1.as_deref().map(|d| format!(":{d}")).unwrap_or_default();
        id + &compass'''))
p('value', imp('Attribute', '''
        let Attribute(key, value) = self;
        let value = value.print(ctx);
        let value = match ctx.attr_value_printers.get(key) {
            None => value,
            Some(f) => f(&value, &ctx.l_s, &ctx.indent(), ctx.indent_step),
        };
        let mut out = key.print(ctx);
        out.push('=');
        out + &value'''))
p('gattr', imp('GraphAttributes', '''
        let (word, attrs) = match self {
            GraphAttributes::Graph(a) => ("graph", a),
            GraphAttributes::Node(a) => ("node", a),
            GraphAttributes::Edge(a) => ("edge", a),
        };
        match attrs.len() {
            0 => format!("{}[]", word),
            _ => [word.to_owned(), attrs.print(ctx)].concat(),
        }'''))

q('body', ('fn process_body(', '''fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {
    rule.into_inner().map(process_stmt).collect()
}
'''), ('fn process_attr_list(', '''fn process_attr_list(rule: Pair<Rule>) -> Vec<Attribute> {
    rule.into_inner().map(|r| process_attr(r)).collect::<Vec<_>>()
}
'''))
q('fold', ('fn process_body(', '''fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {
    rule.into_inner().fold(Vec::new(), |mut acc, r| {
        acc.push(process_stmt(r));
        acc
    })
}
'''))
q('extend', ('fn process_edge(', '''fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
    let mut inner = rule.into_inner();
    let head = inner.next().map(process_vertex).unwrap();
    let mut all = Vec::new();
    all.push(head);
    all.extend(inner.map(|tail| process_vertex(down(tail))));
    all
}
'''))
q('once', ('fn process_edge(', '''fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
    let mut inner = rule.into_inner();
    let head = process_vertex(inner.next().expect("an edge has a head"));
    std::iter::once(head).chain(inner.map(|t| process_vertex(down(t)))).collect()
}
'''))
q('edgety', ('fn process_edge_ty(', '''fn process_edge_ty(mut edges: Vec<Vertex>) -> EdgeTy {
    match edges.len() {
        2 => {
            let r = edges.pop().unwrap();
            let l = edges.pop().unwrap();
            EdgeTy::Pair(l, r)
        }
        _ => EdgeTy::Chain(edges),
    }
}
'''))
q('edgetry', ('fn process_edge_ty(', '''fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {
    match <[Vertex; 2]>::try_from(edges) {
        Ok([l, r]) => EdgeTy::Pair(l, r),
        Err(edges) => EdgeTy::Chain(edges),
    }
}
'''))
q('port', ('fn process_port(', '''fn process_port(port: Pair<Rule>) -> Port {
    let mut inner = port.into_inner();
    let first = inner.next().expect("port can not be empty");
    let second = inner.next().map(|c| c.as_str().to_string());
    match (first.as_rule(), second) {
        (Rule::compass, _) => Port(None, Some(first.as_str().to_owned())),
        (Rule::id, Some(c)) => Port(Some(process_id(first)), Some(c)),
        (Rule::id, None) => {
            let id = process_id(first);
            match parse_compass_manually(id.clone()) {
                c @ Some(_) => Port(None, c),
                None => Port(Some(id), None),
            }
        }
        _ => unreachable!(),
    }
}
'''))
q('compass', ('fn parse_compass_manually(', '''fn parse_compass_manually(id: Id) -> Option<String> {
    const SIDES: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
    let Id::Plain(s) = id else { return None };
    if SIDES.contains(&s.as_str()) {
        Some(s)
    } else {
        None
    }
}
'''))
q('node', ('fn process_node(', '''fn process_node(rule: Pair<Rule>) -> Node {
    let mut inner = rule.into_inner();
    let id = inner.next().map(process_node_id).unwrap();
    let attributes = inner.next().map_or_else(Vec::new, process_attr_list);
    Node::new(id, attributes)
}
'''), ('fn process_node_id(', '''fn process_node_id(rule: Pair<Rule>) -> NodeId {
    let mut parts = rule.into_inner();
    let id = process_id(parts.next().unwrap());
    NodeId(id, parts.next().map(process_port))
}
'''))
q('edgestmt', ('fn process_edge_stmt(', '''fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
    let mut edge_r = rule.into_inner();
    let vertices = process_edge(edge_r.next().unwrap());
    let attributes = match edge_r.next() {
        Some(list) => process_attr_list(list),
        None => Vec::default(),
    };
    let ty = process_edge_ty(vertices);
    Edge { ty, attributes }
}
'''))
q('graph', ('fn process_graph(', '''fn process_graph(rule: Pair<Rule>) -> Graph {
    let mut parts = rule.into_inner().peekable();
    let strict = parts.next_if(|r| r.as_rule() == Rule::strict).is_some();
    let di = parts.next().map_or(false, |r| r.as_str().eq_ignore_ascii_case("digraph"));
    let id = name(parts.next_if(|r| r.as_rule() == Rule::id));
    let stmts = parts.next().map(process_body).unwrap();
    match di {
        true => Graph::DiGraph { id, strict, stmts },
        false => Graph::Graph { id, strict, stmts },
    }
}

fn name(r: Option<Pair<Rule>>) -> Id {
    match r {
        Some(r) => process_id(r),
        None => Id::Anonymous(rand::random::<u64>().to_string()),
    }
}
'''), ('fn process_subgraph(', '''fn process_subgraph(rule: Pair<Rule>) -> Subgraph {
    let mut parts = rule.into_inner().peekable();
    let id = name(parts.next_if(|r| r.as_rule() == Rule::id));
    Subgraph { id, stmts: process_body(parts.next().unwrap()) }
}
'''))
q('graphloop', ('fn process_graph(', '''fn process_graph(rule: Pair<Rule>) -> Graph {
    let (mut strict, mut di, mut id, mut stmts) = (false, false, None, vec![]);
    for r in rule.into_inner() {
        match r.as_rule() {
            Rule::strict => strict = true,
            Rule::id => id = Some(process_id(r)),
            Rule::body => stmts = process_body(r),
            _ => di = r.as_str().eq_ignore_ascii_case("digraph"),
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    if di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}
'''))
q('lower', ('fn process_graph(', cut(Q, 'fn process_graph(').replace('''let is_di = matches!(graph_r.next(), Some(r) if r.as_str().eq_ignore_ascii_case("digraph"));''', '''let kind = graph_r.next().unwrap().as_str().to_ascii_lowercase();
    let is_di = kind == "digraph";''')))
q('id', ('fn process_id(', '''fn process_id(rule: Pair<Rule>) -> Id {
    let text = rule.as_str();
    let make: fn(String) -> Id = match down(rule.clone()).as_rule() {
        Rule::plain => Id::Plain,
        Rule::html => Id::Html,
        Rule::string_qt => Id::Escaped,
        p => unreachable!("got {:?}", p),
    };
    make(text.to_owned())
}
'''))
