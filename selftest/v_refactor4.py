"""A fourth wave of refactorings: other idioms, larger rewrites, other representations. Every check has to stay quiet."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
from v_refactor3 import P, R, C, L, PR_ALL, PA_ALL, IND, ATTRS, ATTR, NODE, NID, PORT, GA, SUB, GR, ST, ONE, PE, ED
S = 'dot-structures/src/lib.rs'
V = []


def p(name, *e): V.append(('p4-' + name, 'quiet', list(e), PR_ALL))
def r(name, *e): V.append(('x4-' + name, 'quiet', list(e), PA_ALL))
def c(name, *e): V.append(('c4-' + name, 'quiet', list(e), ['C19', 'C20', 'C21', 'C22', 'C23', 'C24']))
def s(name, *e): V.append(('s4-' + name, 'quiet', list(e), ['C25', 'C30', 'C26', 'C02', 'C10']))


# ---- printer
p('depth', body(P, IND, '''
        if self.is_inline_on() {
            "".to_string()
        } else {
            " ".repeat(self.indent * self.indent_step)
        }'''), body(P, 'fn indent_grow(&mut self) {', '''
        if !self.is_inline_on() {
            self.indent += 1
        }'''), body(P, 'fn indent_shrink(&mut self) {', '''
        if !self.is_inline_on() {
            self.indent -= 1
        }'''))
p('pads', body(P, IND, '''
        std::iter::repeat_n(" ", if self.is_inline_on() { 0 } else { self.indent }).collect::<Vec<_>>().concat()'''))
p('inline-empty', body(P, 'fn is_inline_on(&self) -> bool {', '''
        self.l_s.is_empty()'''))
p('edge-swap', body(P, ED, '''
        let multi = print_edge(self, ctx);
        if ctx.is_inline_on() || multi.len() > ctx.inline_size {
            return multi;
        }
        let saved = std::mem::take(&mut ctx.l_s);
        let inline = print_edge(self, ctx);
        ctx.l_s = saved;
        inline'''))
p('edge-replace', body(P, ED, '''
        let first = print_edge(self, ctx);
        match first.len() {
            n if n > ctx.inline_size => first,
            _ if ctx.is_inline_on() => first,
            _ => {
                let empty = ctx.l_s_i.clone();
                let outer = std::mem::replace(&mut ctx.l_s, empty);
                let short = print_edge(self, ctx);
                ctx.l_s = outer;
                short
            }
        }'''))
p('edge-ends', item(P, PE, '''fn ends(ty: &EdgeTy) -> Vec<&Vertex> {
    match ty {
        EdgeTy::Pair(l, r) => vec![l, r],
        EdgeTy::Chain(vs) => vs.iter().collect(),
    }
}

fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    let bond = format!(" {} ", if ctx.is_digraph { "->" } else { "--" });
    let mut line = ends(&edge.ty)
        .into_iter()
        .map(|v| v.print(ctx))
        .collect::<Vec<_>>()
        .join(&bond);
    if !edge.attributes.is_empty() {
        if matches!(edge.ty, EdgeTy::Pair(..)) {
            line.push(' ');
        }
        line += &edge.attributes.print(ctx);
    }
    line
}'''))
p('edge-slices', item(P, PE, '''fn print_vertices<'a>(vs: impl IntoIterator<Item = &'a Vertex>, ctx: &mut PrinterContext) -> String {
    let bond = if ctx.is_digraph { " -> " } else { " -- " };
    let mut out = String::new();
    for (i, v) in vs.into_iter().enumerate() {
        if i != 0 {
            out += bond;
        }
        out += &v.print(ctx);
    }
    out
}

fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    let Edge { ty, attributes } = edge;
    match ty {
        EdgeTy::Pair(l, r) => {
            let ends = print_vertices([l, r], ctx);
            let attrs = attributes.print(ctx);
            if attrs.is_empty() {
                ends
            } else {
                ends + " " + &attrs
            }
        }
        EdgeTy::Chain(vs) => print_vertices(vs, ctx) + &attributes.print(ctx),
    }
}'''))
p('edge-method', item(P, PE, '''impl Edge0<'_> {
    fn render(&self, ctx: &mut PrinterContext) -> String {
        let bond = ["--", "->"][ctx.is_digraph as usize];
        let attrs = |ctx: &mut PrinterContext| self.0.attributes.print(ctx);
        match &self.0.ty {
            EdgeTy::Pair(l, r) => {
                let mut parts = vec![l.print(ctx), bond.to_string(), r.print(ctx)];
                if !self.0.attributes.is_empty() {
                    parts.push(attrs(ctx));
                }
                parts.join(" ")
            }
            EdgeTy::Chain(vs) => {
                let mut parts = Vec::with_capacity(vs.len() * 2);
                for v in vs {
                    if !parts.is_empty() {
                        parts.push(bond.to_owned());
                    }
                    parts.push(v.print(ctx));
                }
                let mut line = parts.join(" ");
                line.push_str(&attrs(ctx));
                line
            }
        }
    }
}

struct Edge0<'a>(&'a Edge);

fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    Edge0(edge).render(ctx)
}'''))
p('join-generic', body(P, ST, '''
        let stmts = each(self, ctx);
        if !ctx.l_s.is_empty() {
            return stmts.join(ctx.l_s.as_str());
        }
        let mut r = String::new();
        let mut left = stmts.len();
        for stmt in &stmts {
            left -= 1;
            r.push_str(stmt);
            if left > 0 && !stmt.ends_with([']', '}', ';']) {
                r.push(' ');
            }
        }
        r'''), (P, 'pub trait DotPrinter {', '''fn each<T: DotPrinter>(items: &[T], ctx: &mut PrinterContext) -> Vec<String> {
    let mut out = Vec::with_capacity(items.len());
    for item in items {
        out.push(item.print(ctx));
    }
    out
}

/// Allows to convert the dot structures to string
pub trait DotPrinter {'''))
p('stmts-peek', body(P, ST, '''
        let sep = ctx.l_s.clone();
        let mut r = String::new();
        let mut rest = self.iter().peekable();
        while let Some(stmt) = rest.next() {
            let text = stmt.print(ctx);
            r += &text;
            if rest.peek().is_none() {
                break;
            }
            if !sep.is_empty() {
                r += &sep;
            } else if !matches!(text.chars().next_back(), Some(']' | '}' | ';')) {
                r += " ";
            }
        }
        r'''))
p('stmts-gap', body(P, ST, '''
        fn gap<'a>(prev: &str, sep: &'a str) -> &'a str {
            if sep.is_empty() && !prev.ends_with(&[']', '}', ';'][..]) {
                " "
            } else {
                sep
            }
        }
        let mut prev: Option<String> = None;
        let mut out = String::new();
        for stmt in self {
            let text = stmt.print(ctx);
            if let Some(p) = &prev {
                out.push_str(gap(p, &ctx.l_s));
            }
            out.push_str(&text);
            prev = Some(text);
        }
        out'''))
p('stmts-bytes', body(P, ST, '''
        let texts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if ctx.is_inline_on() {
            texts.iter().enumerate().fold(String::new(), |acc, (i, t)| {
                let glued = i == 0 || [b']', b'}', b';'].iter().any(|b| texts[i - 1].as_bytes().last() == Some(b));
                if glued {
                    acc + t
                } else {
                    acc + " " + t
                }
            })
        } else {
            texts.join(&ctx.l_s)
        }'''))
p('stmt-concat', body(P, ONE, '''
        let indent = ctx.indent();
        let body = match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        };
        [indent.as_str(), body.as_str(), if ctx.semi { ";" } else { "" }].concat()'''))
p('stmt-late', body(P, ONE, '''
        let printer: &dyn DotPrinter = match self {
            Stmt::Node(e) => e,
            Stmt::Subgraph(e) => e,
            Stmt::Attribute(e) => e,
            Stmt::GAttribute(e) => e,
            Stmt::Edge(e) => e,
        };
        let mut line = printer.print(ctx);
        line.insert_str(0, &ctx.indent());
        line.extend(ctx.semi.then_some(';'));
        line'''))
p('stmt-line', body(P, ONE, '''
        match self {
            Stmt::Node(e) => ctx.line(e),
            Stmt::Subgraph(e) => ctx.line(e),
            Stmt::Attribute(e) => ctx.line(e),
            Stmt::GAttribute(e) => ctx.line(e),
            Stmt::Edge(e) => ctx.line(e),
        }'''), body(P, 'fn multiline_mode(&mut self) {', '''
        self.l_s = self.l_s_m.clone()
    }
    fn line(&mut self, e: &impl DotPrinter) -> String {
        let mut line = self.indent();
        line.push_str(&e.print(self));
        if self.semi {
            line.push(';');
        }
        line'''))
p('graph-parts', body(P, GR, '''
        let (id, strict, stmts, di) = match self {
            Graph::Graph { id, strict, stmts } => (id, *strict, stmts, false),
            Graph::DiGraph { id, strict, stmts } => (id, *strict, stmts, true),
        };
        ctx.is_digraph = di;
        ctx.indent_grow();
        let body = stmts.print(ctx);
        ctx.indent_shrink();
        let sep = &ctx.l_s.clone();
        let mut out = String::new();
        if strict {
            out += "strict ";
        }
        out += if di { "digraph " } else { "graph " };
        out += &id.print(ctx);
        out += " {";
        for part in [sep, &body, sep] {
            out += part;
        }
        out.push('}');
        out'''))
p('graph-kw', body(P, GR, '''
        ctx.is_digraph = matches!(self, Graph::DiGraph { .. });
        let (Graph::Graph { id, strict, stmts } | Graph::DiGraph { id, strict, stmts }) = self;
        ctx.indent_grow();
        let words = [
            strict.then_some("strict"),
            Some(if ctx.is_digraph { "digraph" } else { "graph" }),
        ];
        let head: Vec<&str> = words.into_iter().flatten().collect();
        let name = id.print(ctx);
        let text = format!(
            "{head} {name} {{{nl}{body}{nl}}}",
            head = head.join(" "),
            nl = ctx.l_s.clone(),
            body = stmts.print(ctx),
        );
        ctx.indent_shrink();
        text'''))
p('graph-flags', body(P, GR, '''
        let kind = match self {
            Graph::Graph { strict: false, .. } => "graph",
            Graph::Graph { strict: true, .. } => "strict graph",
            Graph::DiGraph { strict: false, .. } => "digraph",
            Graph::DiGraph { strict: true, .. } => "strict digraph",
        };
        ctx.is_digraph = kind.ends_with("digraph");
        let (id, stmts) = match self {
            Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. } => (id, stmts),
        };
        ctx.indent_grow();
        let body = stmts.print(ctx);
        let out = [kind, " ", &id.print(ctx), " {", &ctx.l_s, &body, &ctx.l_s, "}"].concat();
        ctx.indent_shrink();
        out'''))
p('block', body(P, SUB, '''
        let head = format!("subgraph {}", self.id.print(ctx));
        block(&head, &self.stmts, ctx)'''), item(P, PE, '''fn block(head: &str, stmts: &Vec<Stmt>, ctx: &mut PrinterContext) -> String {
    let close = ctx.indent();
    ctx.indent_grow();
    let lines = stmts.print(ctx);
    ctx.indent_shrink();
    format!("{head} {{{0}{lines}{0}{close}}}", ctx.l_s)
}

''' + item(P, PE, '')[1]))
p('attrs-slices', body(P, ATTRS, '''
        match self.as_slice() {
            [] => String::new(),
            [_, _, ..] if ctx.mult_node_attr_on_s_l => {
                let attrs: Vec<_> = self.iter().map(|a| a.print(ctx)).collect();
                let outer = ctx.indent();
                ctx.indent_grow();
                let gap = format!("{}{}", ctx.l_s, ctx.indent());
                let comma = ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma;
                let sep = if comma { format!(",{gap}") } else { gap.clone() };
                ctx.indent_shrink();
                format!("[{gap}{}{}{outer}]", attrs.join(&sep), ctx.l_s)
            }
            all => {
                let mut out = String::from("[");
                for (i, a) in all.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    out.push_str(&a.print(ctx));
                }
                out.push(']');
                out
            }
        }'''))
p('attrs-iter', body(P, ATTRS, '''
        let mut attrs = self.iter().map(|e| e.print(ctx)).collect::<Vec<_>>().into_iter();
        let Some(first) = attrs.next() else {
            return String::new();
        };
        let several = attrs.len() > 0 && ctx.mult_node_attr_on_s_l;
        let (open, sep, close) = if several {
            let back = ctx.indent();
            ctx.indent_grow();
            let lead = ctx.l_s.clone() + &ctx.indent();
            ctx.indent_shrink();
            let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma { "," } else { "" };
            (lead.clone(), comma.to_string() + &lead, ctx.l_s.clone() + &back)
        } else {
            (String::new(), " ".to_string(), String::new())
        };
        let mut out = format!("[{open}{first}");
        for a in attrs {
            out += &sep;
            out += &a;
        }
        out + &close + "]"'''))
p('attr-value', body(P, ATTR, '''
        let Attribute(name, value) = self;
        let text = value.print(ctx);
        let text = match ctx.attr_value_printers.get(name) {
            None => text,
            Some(f) => f(&text, &ctx.l_s, &ctx.indent(), ctx.indent_step),
        };
        name.print(ctx) + "=" + &text'''))
p('attr-mapor', body(P, ATTR, '''
        let (key, plain) = (self.0.print(ctx), self.1.print(ctx));
        let value = ctx
            .attr_value_printers
            .get(&self.0)
            .map_or_else(|| plain.clone(), |f| f(plain.as_str(), &ctx.l_s, &ctx.indent(), ctx.indent_step));
        let mut out = key;
        out.push('=');
        out.push_str(&value);
        out'''))
p('attr-method', body(P, ATTR, '''
        let key = self.0.print(ctx);
        let raw = self.1.print(ctx);
        format!("{key}={}", ctx.value(&self.0, raw))'''), body(P, 'fn multiline_mode(&mut self) {', '''
        self.l_s = self.l_s_m.clone()
    }
    fn value(&self, key: &Id, raw: String) -> String {
        let indent = self.indent();
        if let Some(f) = self.attr_value_printers.get(key) {
            f(&raw, self.l_s.as_ref(), indent.as_ref(), self.indent_step)
        } else {
            raw
        }'''))
p('port-chain', body(P, PORT, '''
        let id = self.0.as_ref().map(|id| id.print(ctx));
        id.as_deref()
            .into_iter()
            .chain(self.1.as_deref())
            .map(|s| format!(":{s}"))
            .collect()'''))
p('port-write', body(P, PORT, '''
        use std::fmt::Write;
        let mut out = String::new();
        if let Some(id) = &self.0 {
            write!(out, ":{}", id.print(ctx)).expect("a string takes any text");
        }
        if let Some(d) = self.1.as_deref() {
            write!(&mut out, ":{d}").unwrap();
        }
        out'''))
p('ga-kw', body(P, GA, '''
        let (word, attrs) = match self {
            GraphAttributes::Graph(a) => ("graph", a),
            GraphAttributes::Node(a) => ("node", a),
            GraphAttributes::Edge(a) => ("edge", a),
        };
        let list = Some(attrs.print(ctx)).filter(|l| !l.is_empty());
        word.to_owned() + list.as_deref().unwrap_or("[]")'''))
p('ga-len', body(P, GA, '''
        let list = |attrs: &Vec<Attribute>, ctx: &mut PrinterContext| match attrs.len() {
            0 => "[]".to_string(),
            _ => attrs.print(ctx),
        };
        match self {
            GraphAttributes::Graph(a) => "graph".to_string() + &list(a, ctx),
            GraphAttributes::Node(a) => "node".to_string() + &list(a, ctx),
            GraphAttributes::Edge(a) => "edge".to_string() + &list(a, ctx),
        }'''))
p('node-as', body(P, NODE, '''
        let Node { id, attributes } = self;
        let mut out = id.print(ctx);
        if !attributes.is_empty() {
            out.push_str(attributes.print(ctx).as_str());
        }
        out'''))
p('nid-fmt', body(P, NID, '''
        let NodeId(id, port) = self;
        let mut out = id.print(ctx);
        for port in port {
            out += &port.print(ctx);
        }
        out'''))
p('id-text', body(P, 'impl DotPrinter for Id {\n    fn print(&self, _ctx: &mut PrinterContext) -> String {', '''
        let text = match self {
            Id::Anonymous(_) => None,
            Id::Html(v) => Some(v),
            Id::Escaped(v) => Some(v),
            Id::Plain(v) => Some(v),
        };
        text.cloned().unwrap_or_default()'''))
p('mode-set', (P, 'ctx.inline_mode();', 'ctx.set_sep(true);'), (P, 'ctx.multiline_mode();', 'ctx.set_sep(false);'),
  body(P, 'fn inline_mode(&mut self) {', '''
        self.set_sep(true)
    }
    fn set_sep(&mut self, inline: bool) {
        let sep = if inline { &self.l_s_i } else { &self.l_s_m };
        self.l_s = sep.to_owned();'''))
p('printers-opt', (P, 'HashMap<Id, Box<AttributeValuePrinter>>', 'std::collections::HashMap<Id, std::rc::Rc<AttributeValuePrinter>>'), (P, 'self.attr_value_printers.insert(attr_id, fmt);', 'self.attr_value_printers.insert(attr_id, fmt.into());'))
p('print-move', (L, 'graph.print(ctx)', 'let text = DotPrinter::print(&graph, ctx);\n    drop(graph);\n    text'))

# ---- parser
r('taker', body(R, 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {', '''
        let mut parts = rule.into_inner();
        let id = take_id(&mut parts);
        let stmts = parts.next().map(process_body).unwrap();
        Subgraph { id, stmts }'''), item(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''fn take(parts: &mut Pairs<Rule>, rule: Rule) -> bool {
    let there = parts.peek().map_or(false, |r| r.as_rule() == rule);
    if there {
        parts.next();
    }
    there
}

fn take_id(parts: &mut Pairs<Rule>) -> Id {
    if parts.peek().map(|p| p.as_rule()) == Some(Rule::id) {
        process_id(parts.next().expect("peeked"))
    } else {
        Id::Anonymous(rand::random::<u64>().to_string())
    }
}

fn process_graph(rule: Pair<Rule>) -> Graph {
    let mut parts = rule.into_inner();
    let strict = take(&mut parts, Rule::strict);
    let kind = parts.next().map(|k| k.as_str().to_ascii_lowercase());
    let id = take_id(&mut parts);
    let stmts = process_body(parts.next().unwrap());
    match kind.as_deref() {
        Some("digraph") => Graph::DiGraph { id, strict, stmts },
        _ => Graph::Graph { id, strict, stmts },
    }
}'''))
r('graph-all', body(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''
    let (mut strict, mut di, mut id, mut stmts) = (false, false, None, Vec::new());
    for part in rule.into_inner() {
        match part.as_rule() {
            Rule::strict => strict = true,
            Rule::id => id = Some(process_id(part)),
            Rule::body => stmts = process_body(part),
            _ => di = part.as_str().len() == "digraph".len(),
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    if di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }'''))
r('sub-all', body(R, 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {', '''
    let mut sub = Subgraph {
        id: Id::Anonymous(rand::random::<u64>().to_string()),
        stmts: vec![],
    };
    for part in rule.into_inner() {
        if part.as_rule() == Rule::id {
            sub.id = process_id(part);
        } else {
            sub.stmts = process_body(part);
        }
    }
    sub'''))
r('attrs-map', body(R, 'fn process_attr_list(rule: Pair<Rule>) -> Vec<Attribute> {', '''
    let mut attrs = Vec::new();
    attrs.extend(rule.into_inner().map(|a| process_attr(a)));
    attrs'''))
r('bare-next', body(R, 'fn process_bare_attr(rule: Pair<Rule>) -> Attribute {', '''
    let mut ids = rule.into_inner().map(process_id);
    match (ids.next(), ids.next()) {
        (Some(key), Some(val)) => Attribute(key, val),
        _ => unreachable!("an attribute has a key and a value"),
    }'''))
r('id-early', body(R, 'fn process_id(rule: Pair<Rule>) -> Id {', '''
    let text = rule.as_str().to_owned();
    let kind = rule.into_inner().next().map(|k| k.as_rule()).unwrap();
    if kind == Rule::html {
        return Id::Html(text);
    }
    if kind == Rule::string_qt {
        return Id::Escaped(text);
    }
    if kind != Rule::plain {
        panic!("unreachable, got {:?}", kind);
    }
    Id::Plain(text)'''))
r('port-tuple', body(R, 'fn process_port(port: Pair<Rule>) -> Port {', '''
    let mut parts = port.into_inner();
    match (parts.next(), parts.next()) {
        (Some(id), Some(side)) => Port(Some(process_id(id)), Some(side.as_str().to_owned())),
        (Some(one), None) if one.as_rule() == Rule::compass => Port(None, Some(one.as_str().to_owned())),
        (Some(one), None) => {
            let id = process_id(one);
            match parse_compass_manually(id.clone()) {
                Some(side) => Port(None, Some(side)),
                None => Port(Some(id), None),
            }
        }
        (None, _) => panic!("port can not be empty"),
    }'''))
r('port-inline', body(R, 'fn process_port(port: Pair<Rule>) -> Port {', '''
    const SIDES: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
    let mut port_r = port.into_inner();
    let first = port_r.next().expect("port can not be empty");
    if first.as_rule() == Rule::compass {
        return Port(None, Some(first.as_str().into()));
    }
    let id = process_id(first);
    let side = port_r.next().map(|r| r.as_str().to_string());
    if side.is_some() {
        return Port(Some(id), side);
    }
    match id {
        Id::Plain(s) if SIDES.contains(&s.as_str()) => Port(None, Some(s)),
        id => Port(Some(id), None),
    }'''))
r('edge-first', body(R, 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {', '''
    rule.into_inner()
        .enumerate()
        .map(|(i, p)| if i == 0 { p } else { down(p) })
        .map(process_vertex)
        .collect()'''))
r('edge-chain', body(R, 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {', '''
    let mut parts = rule.into_inner();
    let head = parts.next().into_iter();
    head.chain(parts.map(down)).map(process_vertex).collect()'''))
r('ty-pop', body(R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', '''
    let mut edges = edges;
    match edges.len() {
        2 => {
            let right = edges.pop().unwrap();
            let left = edges.pop().unwrap();
            EdgeTy::Pair(left, right)
        }
        _ => EdgeTy::Chain(edges),
    }'''))
r('ty-drain', body(R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', '''
    if edges.len() != 2 {
        return EdgeTy::Chain(edges);
    }
    let [left, right]: [Vertex; 2] = edges.try_into().unwrap();
    EdgeTy::Pair(left, right)'''))
r('rest-split', body(R, 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {', '''
    let (tails, lists): (Vec<_>, Vec<_>) = rest.into_inner().partition(|r| r.as_rule() == Rule::edge_tail);
    let mut edges = vec![first];
    edges.extend(tails.into_iter().map(|t| process_vertex(down(t))));
    let attributes = lists.into_iter().next().map(process_attr_list).unwrap_or_default();
    Edge {
        ty: process_edge_ty(edges),
        attributes,
    }'''))
r('rest-fold', body(R, 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {', '''
    let mut edge = (vec![first], vec![]);
    rest.into_inner().for_each(|r| {
        if r.as_rule() == Rule::edge_tail {
            edge.0.push(process_vertex(down(r)));
        } else {
            edge.1 = process_attr_list(r);
        }
    });
    let (ends, attributes) = edge;
    Edge { ty: process_edge_ty(ends), attributes }'''))
r('estmt', body(R, 'fn process_edge_stmt(rule: Pair<Rule>) -> Edge {', '''
    let mut parts = rule.into_inner();
    let ends = process_edge(parts.next().unwrap());
    with_attrs(ends, parts.next())'''), item(R, 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {', '''fn with_attrs(ends: Vec<Vertex>, attrs: Option<Pair<Rule>>) -> Edge {
    Edge {
        ty: process_edge_ty(ends),
        attributes: attrs.map_or_else(Vec::new, process_attr_list),
    }
}

fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {
    let mut ends = vec![first];
    let mut parts = rest.into_inner();
    let mut attrs = None;
    while let Some(part) = parts.next() {
        if part.as_rule() != Rule::edge_tail {
            attrs = Some(part);
            break;
        }
        ends.push(process_vertex(down(part)));
    }
    with_attrs(ends, attrs)
}'''))
r('struct', item(R, 'fn process_node(rule: Pair<Rule>) -> Node {', '''struct Parts<'i>(Pairs<'i, Rule>);

impl<'i> Parts<'i> {
    fn of(rule: Pair<'i, Rule>) -> Self {
        Parts(rule.into_inner())
    }
    fn need(&mut self) -> Pair<'i, Rule> {
        self.0.next().unwrap()
    }
    fn attrs(&mut self) -> Vec<Attribute> {
        match self.0.next() {
            Some(list) => process_attr_list(list),
            None => Vec::new(),
        }
    }
}

fn process_node(rule: Pair<Rule>) -> Node {
    let mut parts = Parts::of(rule);
    let id = process_node_id(parts.need());
    Node::new(id, parts.attrs())
}'''), body(R, 'fn process_edge_stmt(rule: Pair<Rule>) -> Edge {', '''
    let mut parts = Parts::of(rule);
    let ty = process_edge_ty(process_edge(parts.need()));
    let attributes = parts.attrs();
    Edge { ty, attributes }'''))
r('body-rec', body(R, 'fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {', '''
    let parts = rule.into_inner();
    let mut stmts = Vec::with_capacity(parts.len());
    for part in parts {
        let stmt = process_stmt(part);
        stmts.push(stmt);
    }
    stmts'''))
r('stmt-if', body(R, 'fn process_stmt(rule: Pair<Rule>) -> Stmt {', '''
    let mut parts = rule.into_inner();
    let (first, second) = (parts.next().unwrap(), parts.next());
    let kind = first.as_rule();
    if let Some(rest) = second {
        let first = Vertex::S(process_subgraph(first));
        return process_edge_rest(first, rest).into();
    }
    match kind {
        Rule::attr_stmt => process_attr_stmt(first).into(),
        Rule::subgraph => process_subgraph(first).into(),
        Rule::node => process_node(first).into(),
        Rule::bare_attr => process_bare_attr(first).into(),
        Rule::edge_stmt => process_edge_stmt(first).into(),
        _ => unreachable!(),
    }'''))
r('ga-match', body(R, 'fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {', '''
    let mut parts = rule.into_inner();
    let word = parts.next().unwrap().as_str().to_lowercase();
    let attrs = parts.next().map(process_attr_list).unwrap();
    match word.as_bytes()[0] {
        b'g' => GraphAttributes::Graph(attrs),
        b'n' => GraphAttributes::Node(attrs),
        _ => GraphAttributes::Edge(attrs),
    }'''))
r('parse-let', body(R, 'pub(crate) fn parse(dot: &str) -> Result<Graph, String> {', '''
    let mut pairs = match do_parse(dot, Rule::file) {
        Ok(pairs) => pairs,
        Err(e) => return Err(format!("{e}")),
    };
    let file = pairs.next().unwrap();
    Ok(process_graph(down(file)))'''))

# ---- runner
EX = 'pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {'
c('exec-flat', body(C, EX, '''
    let args: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let path = temp_file(graph)?.into_temp_path();
    let Output { status, stdout, stderr } = do_exec(&path, args)?;
    path.close()?;
    if status.success() {
        return Ok(stdout);
    }
    Err(io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&stderr).into_owned()))'''))
c('exec-hold', body(C, EX, '''
    let file = temp_file(graph)?;
    let out = do_exec(file.path(), args.into_iter().map(|a| a.prepare()).collect())?;
    file.close()?;
    match out.status.code() {
        Some(0) => Ok(out.stdout),
        _ => Err(io::Error::other(String::from_utf8_lossy(&out.stderr))),
    }'''))
c('args-fold', body(C, 'fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {', '''
    let mut command = Command::new("dot");
    command.args(args.iter());
    command.arg(input.as_os_str());
    let output = command.output()?;
    Ok(output)'''))
c('temp-into', body(C, 'fn temp_file(ctx: String) -> io::Result<NamedTempFile> {', '''
    let mut file = tempfile::Builder::new().suffix(".dot").tempfile()?;
    let mut bytes = ctx.as_bytes();
    io::copy(&mut bytes, &mut file)?;
    file.flush()?;
    Ok(file)'''))
c('prep-push', body(C, 'fn prepare(&self) -> String {', '''
        let (flag, value) = match self {
            CommandArg::Custom(s) => ("", s.to_owned()),
            CommandArg::Output(p) => ("-o", p.to_owned()),
            CommandArg::Layout(Layout::Asage) => ("-K", "osage".to_owned()),
            CommandArg::Layout(l) => ("-K", format!("{:?}", l).to_lowercase()),
            CommandArg::Format(f) => ("-T", f.name()),
        };
        flag.to_string() + &value
    }
}

impl Format {
    fn name(&self) -> String {
        let special = match self {
            Format::Xdot12 => "xdot1.2",
            Format::Xdot14 => "xdot1.4",
            Format::ImapNp => "imap_np",
            Format::CmapxNp => "cmapx_np",
            Format::DotJson => "dot_json",
            Format::XdotJson => "xdot_json",
            Format::PlainExt => "plain-ext",
            Format::Vbmp => "wbmp",
            other => return format!("{:?}", other).to_ascii_lowercase(),
        };
        special.to_string()'''))

# ---- structures
s('id-parts', body(S, 'impl Display for Id {\n    fn fmt(&self, f: &mut Formatter<\'_>) -> std::fmt::Result {', '''
        let (kind, text) = match self {
            Id::Html(v) => ("html ", v),
            Id::Escaped(v) => ("esc ", v),
            Id::Plain(v) => ("", v),
            Id::Anonymous(v) => ("anon ", v),
        };
        f.write_str(kind)?;
        f.write_str(text)'''))
s('ga-eq', body(S, 'pub fn new(ty: &str, attrs: Vec<Attribute>) -> Self {', '''
        let make: fn(Vec<Attribute>) -> Self = match ty.to_lowercase().as_ref() {
            "graph" => Self::Graph,
            "node" => Self::Node,
            "edge" => Self::Edge,
            other => panic!("only graph, node, edge is applied here, not {}", other),
        };
        make(attrs)'''))
s('add-or', body(S, 'pub fn add_stmt(&mut self, stmt: Stmt) {\n        match self {', '''
            Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts.insert(stmts.len(), stmt),'''))
