"""Larger refactorings of all files: every check has to stay quiet."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
PI = ['C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C33']
CI = ['C20', 'C21', 'C22', 'C23', 'C24']
RI = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C32']
P, C, R = 'src/printer.rs', 'src/cmd.rs', 'src/parser.rs'
V = []


def p(name, *e): V.append((name, 'quiet', list(e), PI))
def c(name, *e): V.append((name, 'quiet', list(e), CI))
def r(name, *e): V.append((name, 'quiet', list(e), RI))


USE_WRITE = (P, 'use std::collections::HashMap;\n', 'use std::collections::HashMap;\nuse std::fmt::Write;\n')
ID = 'fn print(&self, _ctx: &mut PrinterContext) -> String {'
def imp(ty, b): return item(P, 'impl DotPrinter for %s {' % ty, 'impl DotPrinter for %s {\n    fn print(&self, ctx: &mut PrinterContext) -> String {\n%s\n    }\n}' % (ty, b))


# ---- printer -------------------------------------------------------------
p('p-id-str', imp('Id', '''
        let _ = ctx;
        let text: &str = match self {
            Id::Html(v) => v,
            Id::Escaped(v) => v.as_str(),
            Id::Plain(v) => &v[..],
            Id::Anonymous(_) => "",
        };
        text.to_owned()'''))
p('p-id-early', imp('Id', '''
        let _ = &ctx;
        if let Id::Anonymous(_) = self {
            return String::new();
        }
        match self {
            Id::Plain(v) | Id::Html(v) | Id::Escaped(v) => v.to_string(),
            _ => String::default(),
        }'''))
p('p-id-opt', imp('Id', '''
        let _c: &PrinterContext = ctx;
        visible_text(self).map(str::to_string).unwrap_or_default()'''),
  (P, 'fn print_edge(', '''fn visible_text(id: &Id) -> Option<&str> {
    match id {
        Id::Anonymous(_) => None,
        Id::Plain(t) | Id::Html(t) | Id::Escaped(t) => Some(t),
    }
}

fn print_edge('''))
p('p-port-push', imp('Port', '''
        let Port(id, compass) = self;
        let mut out = String::new();
        if let Some(id) = id {
            out.push(':');
            out.push_str(&id.print(ctx));
        }
        if let Some(c) = compass {
            out.push(':');
            out.push_str(&c.to_string());
        }
        out'''))
p('p-port-flatten', imp('Port', '''
        let parts = [self.0.as_ref().map(|i| i.print(ctx)), self.1.clone()];
        parts.into_iter().flatten().map(|s| format!(":{}", s)).collect()'''))
p('p-port-write', USE_WRITE, imp('Port', '''
        let mut out = String::new();
        if let Some(id) = &self.0 {
            write!(out, ":{}", id.print(ctx)).unwrap();
        }
        if let Some(c) = &self.1 {
            write!(&mut out, ":{c}").expect("writing to a string");
        }
        out'''))
p('p-port-vec', imp('Port', '''
        let mut parts: Vec<String> = Vec::new();
        if let Some(id) = self.0.as_ref() {
            parts.push(id.print(ctx));
        }
        parts.extend(self.1.iter().cloned());
        parts.iter().fold(String::new(), |acc, x| acc + ":" + x)'''))
p('p-port-opts', imp('Port', '''
        let id = self.0.as_ref().map(|id| format!(":{}", id.print(ctx))).unwrap_or_default();
        let compass = self.1.as_ref().map_or(String::new(), |c| [":", c].concat());
        id + &compass'''))
p('p-nodeid-opt', imp('NodeId', '''
        let NodeId(id, port) = self;
        let port_text = port.as_ref().map_or_else(String::new, |p| p.print(ctx));
        id.print(ctx) + &port_text'''))
p('p-nodeid-push', imp('NodeId', '''
        let mut text = self.0.print(ctx);
        if let Some(port) = self.1.as_ref() {
            text.push_str(port.print(ctx).as_str());
        }
        text'''))
p('p-attr-helper', imp('Attribute', '''
        let Attribute(name, value) = self;
        let value = value.print(ctx);
        format!("{}={}", name.print(ctx), format_value(name, value, ctx))'''),
  (P, 'fn print_edge(', '''fn format_value(name: &Id, value: String, ctx: &PrinterContext) -> String {
    ctx.attr_value_printers
        .get(name)
        .map(|f| f(&value, &ctx.l_s, &ctx.indent(), ctx.indent_step))
        .unwrap_or(value)
}

fn print_edge('''))
p('p-attr-match', imp('Attribute', '''
        let key = self.0.print(ctx);
        let raw = self.1.print(ctx);
        let shown = match ctx.attr_value_printers.get(&self.0) {
            None => raw,
            Some(printer) => {
                let indent = ctx.indent();
                (printer)(raw.as_str(), ctx.l_s.as_str(), indent.as_str(), ctx.indent_step)
            }
        };
        let mut out = String::with_capacity(key.len() + 1 + shown.len());
        out.push_str(&key);
        out.push('=');
        out.push_str(&shown);
        out'''))
p('p-attrs-early', imp('Vec<Attribute>', '''
        if self.is_empty() {
            return String::new();
        }
        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if attrs.len() == 1 || !ctx.mult_node_attr_on_s_l {
            return format!("[{}]", attrs.join(" "));
        }
        let outer = ctx.indent();
        ctx.indent_grow();
        let inner = ctx.indent();
        let comma = if ctx.mult_node_attr_on_s_l_comma || ctx.is_inline_on() { "," } else { "" };
        let sep = format!("{}{}{}", comma, ctx.l_s, inner);
        let body = attrs.join(&sep);
        ctx.indent_shrink();
        format!("[{}{}{}{}{}]", ctx.l_s, inner, body, ctx.l_s, outer)'''))
p('p-attrs-match', imp('Vec<Attribute>', '''
        let parts = self.iter().map(|a| a.print(ctx)).collect::<Vec<_>>();
        match (parts.len(), ctx.mult_node_attr_on_s_l) {
            (0, _) => "".into(),
            (1, _) | (_, false) => ["[", &parts.join(" "), "]"].concat(),
            (_, true) => attributes_on_lines(&parts, ctx),
        }'''), (P, 'fn print_edge(', '''fn attributes_on_lines(parts: &[String], ctx: &mut PrinterContext) -> String {
    let closing = ctx.indent();
    ctx.indent_grow();
    let indent = ctx.indent();
    let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma { "," } else { "" };
    let mut r = String::from("[");
    r += &ctx.l_s;
    r += &indent;
    for (i, part) in parts.iter().enumerate() {
        if i != 0 {
            r += comma;
            r += &ctx.l_s;
            r += &indent;
        }
        r += part;
    }
    r += &ctx.l_s;
    r += &closing;
    r.push(']');
    ctx.indent_shrink();
    r
}

fn print_edge('''))
p('p-gattr-pair', imp('GraphAttributes', '''
        let (keyword, attrs) = match self {
            GraphAttributes::Graph(attrs) => ("graph", attrs),
            GraphAttributes::Node(attrs) => ("node", attrs),
            GraphAttributes::Edge(attrs) => ("edge", attrs),
        };
        let list = if attrs.is_empty() { String::from("[]") } else { attrs.print(ctx) };
        keyword.to_string() + &list'''))
p('p-gattr-after', imp('GraphAttributes', '''
        let (keyword, attrs) = match self {
            GraphAttributes::Graph(a) => ("graph", a),
            GraphAttributes::Node(a) => ("node", a),
            GraphAttributes::Edge(a) => ("edge", a),
        };
        let mut printed = attrs.print(ctx);
        if printed.is_empty() {
            printed.push_str("[]");
        }
        format!("{keyword}{printed}")'''))
p('p-node-push', imp('Node', '''
        let Node { id, attributes } = self;
        let mut s = id.print(ctx);
        s.push_str(&attributes.print(ctx));
        s'''))
p('p-node-empty', imp('Node', '''
        let head = self.id.print(ctx);
        if self.attributes.is_empty() {
            head
        } else {
            head + &self.attributes.print(ctx)
        }'''))
p('p-vertex-dyn', imp('Vertex', '''
        let inner: &dyn DotPrinter = match self {
            Vertex::N(el) => el,
            Vertex::S(el) => el,
        };
        inner.print(ctx)'''))
p('p-block', imp('Subgraph', '''
        let indent = ctx.indent();
        let block = print_block(&self.stmts, ctx);
        format!("subgraph {} {}{}{}", self.id.print(ctx), block, indent, "}")'''),
  (P, 'fn print_edge(', '''fn print_block(stmts: &Vec<Stmt>, ctx: &mut PrinterContext) -> String {
    ctx.indent_grow();
    let body = stmts.print(ctx);
    ctx.indent_shrink();
    let mut out = String::from("{");
    out.push_str(&ctx.l_s);
    out.push_str(&body);
    out.push_str(&ctx.l_s);
    out
}

fn print_edge('''))
p('p-subgraph-order', imp('Subgraph', '''
        let Subgraph { id, stmts } = self;
        let id = id.print(ctx);
        let closing = format!("{}}}", ctx.indent());
        ctx.indent_grow();
        let stmts = stmts.print(ctx);
        let sep = ctx.l_s.clone();
        ctx.indent_shrink();
        ["subgraph ", &id, " {", &sep, &stmts, &sep, &closing].concat()'''))
p('p-scoped', imp('Subgraph', '''
        let indent = ctx.indent();
        ctx.indented(|ctx| {
            let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);
            format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent)
        })'''), (P, '    fn is_inline_on(&self)', '''    fn indented<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.indent_grow();
        let r = f(self);
        self.indent_shrink();
        r
    }

    fn is_inline_on(&self)'''))
p('p-graph-tuple', imp('Graph', '''
        let (directed, strict, id, stmts) = match self {
            Graph::Graph { id, strict, stmts } => (false, *strict, id, stmts),
            Graph::DiGraph { id, strict, stmts } => (true, *strict, id, stmts),
        };
        ctx.is_digraph = directed;
        let kind = if directed { "digraph" } else { "graph" };
        let prefix = if strict { "strict " } else { "" };
        ctx.indent_grow();
        let body = stmts.print(ctx);
        let text = format!("{}{} {} {{{}{}{}}}", prefix, kind, id.print(ctx), ctx.l_s, body, ctx.l_s);
        ctx.indent_shrink();
        text'''))
p('p-graph-header', imp('Graph', '''
        ctx.indent_grow();
        ctx.is_digraph = matches!(self, Graph::DiGraph { .. });
        let (Graph::Graph { id, strict, stmts } | Graph::DiGraph { id, strict, stmts }) = self;
        let mut words: Vec<&str> = Vec::with_capacity(3);
        if *strict {
            words.push("strict");
        }
        words.push(if ctx.is_digraph { "digraph" } else { "graph" });
        let name = id.print(ctx);
        words.push(&name);
        let mut r = words.join(" ");
        r.push_str(" {");
        r.push_str(&ctx.l_s);
        r.push_str(&stmts.print(ctx));
        r.push_str(&ctx.l_s);
        r.push('}');
        ctx.indent_shrink();
        r'''))
p('p-graph-helper', imp('Graph', '''
        match self {
            Graph::Graph { id, strict, stmts } => print_graph("graph", false, *strict, id, stmts, ctx),
            Graph::DiGraph { id, strict, stmts } => print_graph("digraph", true, *strict, id, stmts, ctx),
        }'''), (P, 'fn print_edge(', '''fn print_graph(kind: &str, directed: bool, strict: bool, id: &Id, stmts: &Vec<Stmt>, ctx: &mut PrinterContext) -> String {
    ctx.is_digraph = directed;
    ctx.indent_grow();
    let body = stmts.print(ctx);
    ctx.indent_shrink();
    let sep = &ctx.l_s.clone();
    let head = if strict { format!("strict {}", kind) } else { kind.to_string() };
    format!("{head} {} {{{sep}{body}{sep}}}", id.print(ctx))
}

fn print_edge('''))
p('p-stmts-peek', imp('Vec<Stmt>', '''
        let printed: Vec<String> = self.iter().map(|s| s.print(ctx)).collect();
        if !ctx.l_s.is_empty() {
            return printed.join(&ctx.l_s);
        }
        let mut out = String::new();
        let mut it = printed.iter().peekable();
        while let Some(cur) = it.next() {
            out.push_str(cur);
            if it.peek().is_some() && !cur.ends_with([']', '}', ';']) {
                out.push(' ');
            }
        }
        out'''))
p('p-stmts-prev', imp('Vec<Stmt>', '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if ctx.l_s.is_empty() {
            let mut r = String::new();
            let mut prev: Option<&String> = None;
            for stmt in &stmts {
                if let Some(p) = prev {
                    if !closes_itself(p) {
                        r.push(' ');
                    }
                }
                r.push_str(stmt);
                prev = Some(stmt);
            }
            r
        } else {
            stmts.join(&ctx.l_s)
        }'''), (P, 'fn print_edge(', '''fn closes_itself(stmt: &str) -> bool {
    stmt.ends_with(']') || stmt.ends_with('}') || stmt.ends_with(';')
}

fn print_edge('''))
p('p-stmts-first', imp('Vec<Stmt>', '''
        let mut stmts = Vec::new();
        for e in self {
            stmts.push(e.print(ctx));
        }
        let multi = !ctx.l_s.is_empty();
        let mut r = String::new();
        let mut first = true;
        let mut glue = false;
        for stmt in stmts {
            if !first {
                if multi {
                    r.push_str(&ctx.l_s);
                } else if glue {
                    r.push(' ');
                }
            }
            first = false;
            glue = !stmt.ends_with(&[']', '}', ';'][..]);
            r.push_str(&stmt);
        }
        r'''))
p('p-stmt-body', imp('Stmt', '''
        let mut out = ctx.indent();
        let body = match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        };
        out.push_str(&body);
        if ctx.semi {
            out.push(';');
        }
        out'''))
p('p-stmt-dyn', imp('Stmt', '''
        let end = match ctx.semi {
            true => ";",
            false => "",
        };
        let what: &dyn DotPrinter = match self {
            Stmt::Node(e) => e,
            Stmt::Subgraph(e) => e,
            Stmt::Attribute(e) => e,
            Stmt::GAttribute(e) => e,
            Stmt::Edge(e) => e,
        };
        format!("{}{}{}", ctx.indent(), what.print(ctx), end)'''))
p('p-stmt-closure', imp('Stmt', '''
        let indent = ctx.indent();
        let end = String::from(if ctx.semi { ";" } else { "" });
        let wrap = |text: String| indent + &text + &end;
        match self {
            Stmt::Node(e) => wrap(e.print(ctx)),
            Stmt::Subgraph(e) => wrap(e.print(ctx)),
            Stmt::Attribute(e) => wrap(e.print(ctx)),
            Stmt::GAttribute(e) => wrap(e.print(ctx)),
            Stmt::Edge(e) => wrap(e.print(ctx)),
        }'''))
p('p-edge-ends', body(P, 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {', '''
    let bond = if ctx.is_digraph { " -> " } else { " -- " };
    let ends: Vec<&Vertex> = match &edge.ty {
        EdgeTy::Pair(l, r) => vec![l, r],
        EdgeTy::Chain(vs) => vs.iter().collect(),
    };
    let line = ends.into_iter().map(|v| v.print(ctx)).collect::<Vec<_>>().join(bond);
    let attrs = edge.attributes.print(ctx);
    match edge.ty {
        EdgeTy::Pair(..) if !attrs.is_empty() => format!("{} {}", line, attrs),
        _ => line + &attrs,
    }'''))
p('p-edge-split', body(P, 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {', '''
    let Edge { ty, attributes } = edge;
    let op = edge_op(ctx.is_digraph);
    match ty {
        EdgeTy::Pair(from, to) => {
            let mut out = from.print(ctx);
            out = out + " " + op + " " + &to.print(ctx);
            if !attributes.is_empty() {
                out.push(' ');
                out += &attributes.print(ctx);
            }
            out
        }
        EdgeTy::Chain(vs) => match vs.split_first() {
            None => attributes.print(ctx),
            Some((first, rest)) => {
                let mut out = first.print(ctx);
                for v in rest {
                    out.push_str(&format!(" {} {}", op, v.print(ctx)));
                }
                out.push_str(&attributes.print(ctx));
                out
            }
        },
    }'''), (P, 'impl DotPrinter for Edge {', '''fn edge_op(directed: bool) -> &'static str {
    match directed {
        true => "->",
        false => "--",
    }
}

impl DotPrinter for Edge {'''))
p('p-edge-index', body(P, 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {', '''
    let bond = if ctx.is_digraph { "->" } else { "--" };
    match &edge.ty {
        EdgeTy::Pair(l, r) => {
            let (l, r) = (l.print(ctx), r.print(ctx));
            let attrs = edge.attributes.print(ctx);
            let space = if edge.attributes.is_empty() { "" } else { " " };
            format!("{l} {bond} {r}{space}{attrs}")
        }
        EdgeTy::Chain(vs) => {
            let mut s = String::new();
            for i in 0..vs.len() {
                if i > 0 {
                    s.push(' ');
                    s.push_str(bond);
                    s.push(' ');
                }
                s.push_str(&vs[i].print(ctx));
            }
            s + &edge.attributes.print(ctx)
        }
    }'''))
p('p-edge-early', imp('Edge', '''
        let normal = print_edge(self, ctx);
        if ctx.is_inline_on() || normal.len() > ctx.inline_size {
            return normal;
        }
        ctx.inline_mode();
        let short = print_edge(self, ctx);
        ctx.multiline_mode();
        short'''))
p('p-edge-fn', imp('Edge', '''
        let text = print_edge(self, ctx);
        match fits(&text, ctx) {
            true => print_inline(self, ctx),
            false => text,
        }'''), (P, 'impl DotPrinter for Edge {', '''fn fits(text: &str, ctx: &PrinterContext) -> bool {
    !(ctx.is_inline_on() || text.len() > ctx.inline_size)
}

fn print_inline(edge: &Edge, ctx: &mut PrinterContext) -> String {
    ctx.inline_mode();
    let text = print_edge(edge, ctx);
    ctx.multiline_mode();
    text
}

impl DotPrinter for Edge {'''))
p('p-edge-swap', imp('Edge', '''
        let text = print_edge(self, ctx);
        if !ctx.is_inline_on() && ctx.inline_size >= text.len() {
            let inline = ctx.l_s_i.clone();
            let saved = std::mem::replace(&mut ctx.l_s, inline);
            let text = print_edge(self, ctx);
            ctx.l_s = saved;
            return text;
        }
        text'''))
p('p-indent-take', body(P, 'fn indent(&self) -> String {', '''
        match self.is_inline_on() {
            true => String::new(),
            false => std::iter::repeat(' ').take(self.indent).collect(),
        }'''))
p('p-indent-width', body(P, 'fn indent(&self) -> String {', '''
        if self.is_inline_on() {
            return String::new();
        }
        format!("{:width$}", "", width = self.indent)'''))
p('p-indent-range', body(P, 'fn indent(&self) -> String {', '''
        let n = if self.is_inline_on() { 0 } else { self.indent };
        (0..n).map(|_| " ").collect::<String>()'''))
p('p-indent-loop', body(P, 'fn indent(&self) -> String {', '''
        let mut s = String::new();
        if !self.is_inline_on() {
            for _ in 0..self.indent {
                s.push(' ');
            }
        }
        s'''))
p('p-grow-early', body(P, 'fn indent_grow(&mut self) {', '''
        if self.is_inline_on() {
            return;
        }
        self.indent = self.indent + self.indent_step;'''),
  body(P, 'fn indent_shrink(&mut self) {', '''
        if self.is_inline_on() {
            return;
        }
        self.indent = self.indent.saturating_sub(self.indent_step);'''))
p('p-new-default', body(P, 'pub fn new(semi: bool, indent_step: usize, line_s: String, inline_size: usize) -> Self {', '''
        let mut ctx = PrinterContext::default();
        ctx.semi = semi;
        ctx.with_indent_step(indent_step).with_inline_size(inline_size).with_line_sep(line_s);
        ctx'''))
p('p-new-update', body(P, 'pub fn new(semi: bool, indent_step: usize, line_s: String, inline_size: usize) -> Self {', '''
        Self {
            semi,
            indent_step,
            inline_size,
            l_s: line_s.to_string(),
            l_s_m: line_s,
            ..Self::default()
        }'''))
p('p-default-new', item(P, 'impl Default for PrinterContext {', '''impl Default for PrinterContext {
    fn default() -> Self {
        Self::new(false, 2, String::from("\\n"), 90)
    }
}'''))
p('p-const', item(P, 'impl Default for PrinterContext {', '''const DEFAULT_INDENT_STEP: usize = 2;
const DEFAULT_INLINE_SIZE: usize = 90;
const LINE: &str = "\\n";

impl Default for PrinterContext {
    fn default() -> Self {
        PrinterContext {
            is_digraph: false,
            mult_node_attr_on_s_l: false,
            mult_node_attr_on_s_l_comma: true,
            semi: false,
            indent: 0,
            indent_step: DEFAULT_INDENT_STEP,
            l_s: LINE.to_string(),
            inline_size: DEFAULT_INLINE_SIZE,
            l_s_i: String::new(),
            l_s_m: LINE.into(),
            attr_value_printers: Default::default(),
        }
    }
}'''))
p('p-inline-clone', body(P, 'pub fn always_inline(&mut self) -> &mut PrinterContext {', '''
        self.l_s_m.clone_from(&self.l_s_i);
        self.inline_mode();
        self'''), body(P, 'fn is_inline_on(&self) -> bool {', 'self.l_s.eq(&self.l_s_i)'),
  body(P, 'fn multiline_mode(&mut self) {', 'self.l_s.clone_from(&self.l_s_m);'))
p('p-linesep', body(P, 'pub fn with_line_sep(&mut self, sep: String) -> &mut PrinterContext {', '''
        self.l_s_m = sep;
        self.multiline_mode();
        self'''), body(P, 'fn is_inline_on(&self) -> bool {', 'self.l_s.as_str() == self.l_s_i.as_str()'))
p('p-mode', body(P, 'fn inline_mode(&mut self) {', 'self.set_separator(self.l_s_i.clone());'),
  body(P, 'fn multiline_mode(&mut self) {', '''let sep = self.l_s_m.clone();
        self.set_separator(sep);
    }
    fn set_separator(&mut self, sep: String) {
        self.l_s = sep;'''))
p('p-entry', body(P, '''    pub fn with_attr_value_printer(
        &mut self,
        attr_id: Id,
        fmt: Box<AttributeValuePrinter>,
    ) -> &mut PrinterContext {''', '''
        let printers = &mut self.attr_value_printers;
        let _old = printers.insert(attr_id, fmt);
        self'''))
p('p-trait-default', (P, '''pub trait DotPrinter {
    fn print(&self, ctx: &mut PrinterContext) -> String;
}''', '''pub trait DotPrinter {
    fn print(&self, ctx: &mut PrinterContext) -> String;
}

impl<T: DotPrinter + ?Sized> DotPrinter for Box<T> {
    fn print(&self, ctx: &mut PrinterContext) -> String {
        (**self).print(ctx)
    }
}'''))
p('p-slices', imp('Vec<Attribute>', '''
        self.as_slice().print(ctx)
    }
}

impl DotPrinter for [Attribute] {
    fn print(&self, ctx: &mut PrinterContext) -> String {
        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if attrs.is_empty() {
            "".to_string()
        } else if attrs.len() > 1 && ctx.mult_node_attr_on_s_l {
            let indent = ctx.indent();
            ctx.indent_grow();
            let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma { "," } else { "" };
            let sep = format!("{}{}{}", comma, ctx.l_s, ctx.indent());
            let r = format!("[{}{}{}{}{}]", ctx.l_s, ctx.indent(), attrs.join(&sep), ctx.l_s, indent);
            ctx.indent_shrink();
            r
        } else {
            format!("[{}]", attrs.join(" "))
        }'''))

# ---- cmd -----------------------------------------------------------------
EXEC = 'pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {'
DO = 'fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {'
TMP = 'fn temp_file(ctx: String) -> io::Result<NamedTempFile> {'
PREP = 'fn prepare(&self) -> String {'
c('c-linear', body(C, EXEC, '''
    let args: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let path = temp_file(graph)?.into_temp_path();
    let output = do_exec(&path, args)?;
    path.close()?;
    if output.status.success() {
        Ok(output.stdout)
    } else {
        let message = String::from_utf8_lossy(&output.stderr).into_owned();
        Err(io::Error::new(ErrorKind::Other, message))
    }'''))
c('c-other', body(C, EXEC, '''
    let mut prepared = Vec::with_capacity(args.len());
    for arg in &args {
        prepared.push(arg.prepare());
    }
    let file = temp_file(graph)?;
    let path = file.into_temp_path();
    let Output { status, stdout, stderr } = do_exec(path.as_ref(), prepared)?;
    path.close()?;
    match status.code() {
        Some(0) => Ok(stdout),
        _ => Err(io::Error::other(String::from_utf8_lossy(&stderr).to_string())),
    }'''))
c('c-outcome', body(C, EXEC, '''
    let args = args.into_iter().map(|a| a.prepare()).collect();
    let path = temp_file(graph)?.into_temp_path();
    let output = do_exec(&path, args)?;
    path.close()?;
    outcome(output)
}

fn outcome(output: Output) -> io::Result<Vec<u8>> {
    if !output.status.success() {
        let text = String::from_utf8_lossy(&output.stderr);
        return Err(io::Error::new(ErrorKind::Other, text.as_ref()));
    }
    Ok(output.stdout)'''))
c('c-argsall', body(C, DO, '''
    Command::new("dot").args(args).arg(input).output()'''))
c('c-argschain', body(C, DO, '''
    let mut command = Command::new("dot");
    command.args(args.iter()).arg(input.as_os_str());
    let output = command.output()?;
    Ok(output)'''))
c('c-fold', body(C, DO, '''
    let mut command = args.into_iter().fold(Command::new(PROGRAM), |mut c, a| {
        c.arg(a);
        c
    });
    command.arg(input);
    command.output()
}

const PROGRAM: &str = "dot";

fn _unused() {'''))
c('c-temp-q', body(C, TMP, '''
    let mut file = NamedTempFile::new()?;
    file.write_all(ctx.as_bytes())?;
    Ok(file)'''))
c('c-temp-flush', body(C, TMP, '''
    let mut file = tempfile::NamedTempFile::new()?;
    let bytes = ctx.into_bytes();
    file.write_all(&bytes)?;
    file.flush()?;
    Ok(file)'''))
c('c-temp-write', body(C, TMP, '''
    let mut file = NamedTempFile::new()?;
    match write!(file, "{}", ctx) {
        Ok(()) => Ok(file),
        Err(e) => Err(e),
    }'''))
c('c-temp-andthen', body(C, TMP, '''
    NamedTempFile::new().and_then(|mut file| {
        file.as_file_mut().write_all(ctx.as_bytes())?;
        Ok(file)
    })'''))
c('c-name-fns', body(C, PREP, '''
        match self {
            CommandArg::Custom(s) => s.to_owned(),
            CommandArg::Output(p) => "-o".to_string() + p,
            CommandArg::Layout(l) => format!("-K{}", l.name()),
            CommandArg::Format(f) => ["-T", &f.name()].concat(),
        }'''), (C, '#[derive(Debug, Copy, Clone, PartialEq, Eq)]\npub enum Layout {', '''impl Layout {
    fn name(&self) -> String {
        if *self == Layout::Asage {
            return String::from("osage");
        }
        format!("{:?}", self).to_ascii_lowercase()
    }
}

impl Format {
    fn name(&self) -> String {
        let special = match self {
            Format::Xdot12 => Some("xdot1.2"),
            Format::Xdot14 => Some("xdot1.4"),
            Format::ImapNp => Some("imap_np"),
            Format::CmapxNp => Some("cmapx_np"),
            Format::DotJson => Some("dot_json"),
            Format::XdotJson => Some("xdot_json"),
            Format::PlainExt => Some("plain-ext"),
            Format::Vbmp => Some("wbmp"),
            _ => None,
        };
        special.map(String::from).unwrap_or_else(|| format!("{:?}", self).to_lowercase())
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Layout {'''))
c('c-flagvalue', body(C, PREP, '''
        let (flag, value) = match self {
            CommandArg::Custom(s) => ("", s.clone()),
            CommandArg::Output(p) => ("-o", p.clone()),
            CommandArg::Layout(Layout::Asage) => ("-K", "osage".to_string()),
            CommandArg::Layout(l) => ("-K", format!("{:?}", l).to_lowercase()),
            CommandArg::Format(f) => {
                let name = match f {
                    Format::Xdot12 => "xdot1.2".to_string(),
                    Format::Xdot14 => "xdot1.4".to_string(),
                    Format::ImapNp => "imap_np".to_string(),
                    Format::CmapxNp => "cmapx_np".to_string(),
                    Format::DotJson => "dot_json".to_string(),
                    Format::XdotJson => "xdot_json".to_string(),
                    Format::PlainExt => "plain-ext".to_string(),
                    Format::Vbmp => "wbmp".to_string(),
                    _ => format!("{:?}", f).to_lowercase(),
                };
                ("-T", name)
            }
        };
        format!("{}{}", flag, value)'''))
c('c-display', body(C, PREP, '''
        match self {
            CommandArg::Custom(s) => s.clone(),
            CommandArg::Output(p) => format!("-o{p}"),
            CommandArg::Layout(l) => format!("-K{l}"),
            CommandArg::Format(f) => {
                let str = match f {
                    Format::Xdot12 => "xdot1.2",
                    Format::Xdot14 => "xdot1.4",
                    Format::ImapNp => "imap_np",
                    Format::CmapxNp => "cmapx_np",
                    Format::DotJson => "dot_json",
                    Format::XdotJson => "xdot_json",
                    Format::PlainExt => "plain-ext",
                    Format::Vbmp => "wbmp",
                    other => return format!("-T{}", format!("{:?}", other).to_lowercase()),
                };
                format!("-T{}", str)
            }
        }'''), (C, '#[derive(Debug, Copy, Clone, PartialEq, Eq)]\npub enum Layout {', '''impl std::fmt::Display for Layout {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let name = match self {
            Layout::Dot => "dot",
            Layout::Neato => "neato",
            Layout::Twopi => "twopi",
            Layout::Circo => "circo",
            Layout::Fdp => "fdp",
            Layout::Asage => "osage",
            Layout::Patchwork => "patchwork",
            Layout::Sfdp => "sfdp",
        };
        f.write_str(name)
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Layout {'''))
c('c-str-graph', body(C, EXEC, '''
    run(&graph, &args)
}

fn run(text: &str, args: &[CommandArg]) -> io::Result<Vec<u8>> {
    let args = args.iter().map(|a| a.prepare()).collect::<Vec<String>>();
    let mut file = NamedTempFile::new()?;
    file.write_all(text.as_bytes())?;
    let path = file.into_temp_path();
    let result = do_exec(&path, args);
    let out = result?;
    path.close()?;
    if out.status.success() {
        return Ok(out.stdout);
    }
    let mes: String = String::from_utf8_lossy(&out.stderr).into();
    Err(ErrorKind::Other.into()).map_err(|_: io::Error| io::Error::new(ErrorKind::Other, mes))'''))
c('c-keepfile', body(C, EXEC, '''
    let args = args.into_iter().map(|a| a.prepare()).collect();
    let file = temp_file(graph)?;
    let o = do_exec(file.path(), args)?;
    file.close()?;
    if o.status.success() {
        Ok(o.stdout)
    } else {
        let mes = String::from_utf8_lossy(&o.stderr).to_string();
        Err(std::io::Error::new(ErrorKind::Other, mes))
    }'''))
c('c-spawn', body(C, DO, '''
    let mut command = Command::new("dot");
    command.args(args).arg(input);
    command.stdin(std::process::Stdio::null());
    command.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    command.spawn()?.wait_with_output()'''))

# ---- parser --------------------------------------------------------------
r('x-parse-q', body(R, 'pub(crate) fn parse(dot: &str) -> Result<Graph, String> {', '''
    let mut pairs = do_parse(dot, Rule::file).map_err(|e| e.to_string())?;
    let file = pairs.next().expect("a file rule");
    Ok(process_graph(down(file)))'''))
r('x-parse-match', body(R, 'pub(crate) fn parse(dot: &str) -> Result<Graph, String> {', '''
    match do_parse(dot, Rule::file) {
        Ok(mut pairs) => {
            let file = pairs.next().unwrap();
            let graph = file.into_inner().next().unwrap();
            Ok(process_graph(graph))
        }
        Err(e) => Err(format!("{}", e)),
    }'''))
r('x-attr-list', body(R, 'fn process_attr_list(rule: Pair<Rule>) -> Vec<Attribute> {', '''
    let mut attrs = Vec::new();
    for attr in rule.into_inner() {
        attrs.push(process_attr(attr));
    }
    attrs'''))
r('x-attr-filter', body(R, 'fn process_attr_list(rule: Pair<Rule>) -> Vec<Attribute> {', '''
    rule.into_inner()
        .filter(|r| matches!(r.as_rule(), Rule::attr))
        .map(process_attr)
        .collect()'''))
r('x-bare', body(R, 'fn process_bare_attr(rule: Pair<Rule>) -> Attribute {', '''
    let mut ids = rule.into_inner().map(process_id);
    match (ids.next(), ids.next()) {
        (Some(key), Some(val)) => Attribute(key, val),
        _ => unreachable!("an attribute has a key and a value"),
    }'''))
r('x-bare-vec', body(R, 'fn process_bare_attr(rule: Pair<Rule>) -> Attribute {', '''
    let mut ids: Vec<Id> = rule.into_inner().map(process_id).collect();
    let val = ids.pop().unwrap();
    let key = ids.pop().unwrap();
    Attribute(key, val)'''))
r('x-id-ctor', body(R, 'fn process_id(rule: Pair<Rule>) -> Id {', '''
    let text = rule.as_str().to_owned();
    let make: fn(String) -> Id = match down(rule).as_rule() {
        Rule::plain => Id::Plain,
        Rule::html => Id::Html,
        Rule::string_qt => Id::Escaped,
        p => panic!("unreachable, got {:?}", p),
    };
    make(text)'''))
r('x-id-kind', body(R, 'fn process_id(rule: Pair<Rule>) -> Id {', '''
    let kind = rule.clone().into_inner().next().map(|r| r.as_rule());
    let val = String::from(rule.as_str());
    if kind == Some(Rule::plain) {
        Id::Plain(val)
    } else if kind == Some(Rule::html) {
        Id::Html(val)
    } else {
        Id::Escaped(val)
    }'''))
r('x-compass-const', item(R, 'fn parse_compass_manually(id: Id) -> Option<String> {', '''const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];

fn parse_compass_manually(id: Id) -> Option<String> {
    match id {
        Id::Plain(s) if COMPASS.contains(&s.as_str()) => Some(s),
        _ => None,
    }
}'''))
r('x-compass-bool', item(R, 'fn parse_compass_manually(id: Id) -> Option<String> {', '''fn is_compass(id: &Id) -> bool {
    if let Id::Plain(s) = id {
        matches!(&s[..], "n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_")
    } else {
        false
    }
}'''), body(R, 'fn process_port(port: Pair<Rule>) -> Port {', '''
    let mut parts = port.into_inner();
    let first = parts.next().expect("port can not be empty");
    match first.as_rule() {
        Rule::compass => Port(None, Some(first.as_str().to_string())),
        Rule::id => {
            let id = process_id(first);
            match parts.next() {
                Some(compass) => Port(Some(id), Some(compass.as_str().to_string())),
                None if is_compass(&id) => Port(None, Some(id.to_string())),
                None => Port(Some(id), None),
            }
        }
        _ => unreachable!(),
    }'''))
r('x-port-let', body(R, 'fn process_port(port: Pair<Rule>) -> Port {', '''
    let mut port_r = port.into_inner();
    let Some(first) = port_r.next() else { panic!("port can not be empty") };
    if first.as_rule() == Rule::compass {
        return Port(None, Some(first.as_str().to_string()));
    }
    let id = process_id(first);
    let compass = port_r.next().map(|r| r.as_str().to_string());
    if compass.is_none() {
        if let Some(c) = parse_compass_manually(id.clone()) {
            return Port(None, Some(c));
        }
    }
    Port(Some(id), compass)'''))
r('x-nid-map', body(R, 'fn process_node_id(rule: Pair<Rule>) -> NodeId {', '''
    let mut parts = rule.into_inner();
    let id = process_id(parts.next().unwrap());
    NodeId(id, parts.next().map(process_port))'''))
r('x-opt-id', body(R, 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {', '''
    let mut sub_r = rule.into_inner();
    let id = id_or_anonymous(&mut sub_r);
    Subgraph { id, stmts: process_body(sub_r.next().unwrap()) }
}

fn id_or_anonymous(pairs: &mut Pairs<Rule>) -> Id {
    if matches!(pairs.peek().map(|r| r.as_rule()), Some(Rule::id)) {
        process_id(pairs.next().unwrap())
    } else {
        Id::Anonymous(rand::random::<u64>().to_string())
    }'''), body(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''
    let mut graph_r = rule.into_inner();
    let strict = graph_r.peek().map(|r| r.as_rule() == Rule::strict).unwrap_or(false);
    if strict {
        graph_r.next();
    }
    let kind = graph_r.next().unwrap();
    let id = id_or_anonymous(&mut graph_r);
    let stmts = process_body(graph_r.next().unwrap());
    match kind.as_str().to_ascii_lowercase().as_str() {
        "digraph" => Graph::DiGraph { id, strict, stmts },
        _ => Graph::Graph { id, strict, stmts },
    }'''))
r('x-sub-loop', body(R, 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {', '''
    let mut id = None;
    let mut stmts = vec![];
    for part in rule.into_inner() {
        match part.as_rule() {
            Rule::id => id = Some(process_id(part)),
            Rule::body => stmts = process_body(part),
            _ => unreachable!(),
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    Subgraph { id, stmts }'''))
r('x-sub-next', body(R, 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {', '''
    let mut parts = rule.into_inner();
    let first = parts.next().unwrap();
    let (id, body) = if first.as_rule() == Rule::id {
        (process_id(first), parts.next().unwrap())
    } else {
        (Id::Anonymous(rand::random::<u64>().to_string()), first)
    };
    let stmts = process_body(body);
    Subgraph { id, stmts }'''))
r('x-body', body(R, 'fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {', '''
    let mut stmts = Vec::new();
    let mut pairs = rule.into_inner();
    while let Some(pair) = pairs.next() {
        stmts.push(process_stmt(pair));
    }
    stmts'''))
r('x-body-fold', body(R, 'fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {', '''
    let stmts: Vec<Stmt> = rule.into_inner().fold(vec![], |mut acc, pair| {
        acc.push(process_stmt(pair));
        acc
    });
    stmts'''))
r('x-node-opt', body(R, 'fn process_node(rule: Pair<Rule>) -> Node {', '''
    let mut node_r = rule.into_inner();
    let id = node_r.next().map(process_node_id).unwrap();
    let attributes = node_r.next().map(process_attr_list).unwrap_or_default();
    Node::new(id, attributes)'''))
r('x-node-match', body(R, 'fn process_node(rule: Pair<Rule>) -> Node {', '''
    let mut node_r = rule.into_inner();
    let id = process_node_id(node_r.next().unwrap());
    let attributes = match node_r.next() {
        None => Vec::new(),
        Some(list) => process_attr_list(list),
    };
    Node { attributes, id }'''))
r('x-edge-chain', body(R, 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {', '''
    let mut edge_r = rule.into_inner();
    let head = edge_r.next().unwrap();
    std::iter::once(head)
        .chain(edge_r.map(down))
        .map(process_vertex)
        .collect()'''))
r('x-edge-match', body(R, 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {', '''
    rule.into_inner()
        .map(|r| match r.as_rule() {
            Rule::edge_tail => process_vertex(down(r)),
            _ => process_vertex(r),
        })
        .collect()'''))
r('x-edge-ext', body(R, 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {', '''
    let mut inner = rule.into_inner();
    let mut chain = Vec::with_capacity(2);
    chain.push(process_vertex(inner.next().unwrap()));
    chain.extend(inner.map(|tail| process_vertex(down(tail))));
    chain'''))
r('x-ty-slice', body(R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', '''
    if edges.len() != 2 {
        return EdgeTy::Chain(edges);
    }
    let mut it = edges.into_iter();
    let from = it.next().unwrap();
    let to = it.next().unwrap();
    EdgeTy::Pair(from, to)'''))
r('x-ty-remove', body(R, 'fn process_edge_ty(mut edges: Vec<Vertex>) -> EdgeTy {'.replace('mut ', ''), '''
    let mut edges = edges;
    if edges.len() > 2 {
        return EdgeTy::Chain(edges);
    }
    let second = edges.remove(1);
    let first = edges.remove(0);
    EdgeTy::Pair(first, second)'''))
r('x-ty-try', body(R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', '''
    match <[Vertex; 2]>::try_from(edges) {
        Ok([l, r]) => EdgeTy::Pair(l, r),
        Err(chain) => EdgeTy::Chain(chain),
    }'''))
r('x-edge-stmt', body(R, 'fn process_edge_stmt(rule: Pair<Rule>) -> Edge {', '''
    let mut edge_r = rule.into_inner();
    let vertices = process_edge(edge_r.next().unwrap());
    let attributes = match edge_r.next() {
        Some(list) => process_attr_list(list),
        None => vec![],
    };
    Edge { ty: process_edge_ty(vertices), attributes }'''))
r('x-rest', body(R, 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {', '''
    let mut edges = vec![first];
    let mut inner = rest.into_inner().peekable();
    while let Some(tail) = inner.next_if(|r| r.as_rule() == Rule::edge_tail) {
        edges.push(process_vertex(down(tail)));
    }
    let attributes = inner.next().map(process_attr_list).unwrap_or_default();
    Edge { ty: process_edge_ty(edges), attributes }'''))
r('x-rest-if', body(R, 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {', '''
    let mut edges = Vec::new();
    edges.push(first);
    let mut attributes = Vec::new();
    for r in rest.into_inner() {
        if r.as_rule() == Rule::edge_tail {
            let vertex = process_vertex(down(r));
            edges.push(vertex);
        } else {
            attributes.extend(process_attr_list(r));
        }
    }
    let ty = process_edge_ty(edges);
    Edge { ty, attributes }'''))
r('x-attr-stmt', body(R, 'fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {', '''
    let mut stmts_r = rule.into_inner();
    let mark = stmts_r.next().unwrap().as_str().to_lowercase();
    let attrs = process_attr_list(stmts_r.next().unwrap());
    match mark.as_str() {
        "graph" => GraphAttributes::Graph(attrs),
        "node" => GraphAttributes::Node(attrs),
        _ => GraphAttributes::Edge(attrs),
    }'''))
r('x-stmt-parts', body(R, 'fn process_stmt(rule: Pair<Rule>) -> Stmt {', '''
    let mut parts = rule.into_inner();
    let first = parts.next().unwrap();
    if first.as_rule() == Rule::subgraph {
        return subgraph_stmt(first, parts.next());
    }
    match first.as_rule() {
        Rule::attr_stmt => process_attr_stmt(first).into(),
        Rule::node => process_node(first).into(),
        Rule::bare_attr => process_bare_attr(first).into(),
        Rule::edge_stmt => process_edge_stmt(first).into(),
        other => unreachable!("{:?}", other),
    }
}

fn subgraph_stmt(pair: Pair<Rule>, rest: Option<Pair<Rule>>) -> Stmt {
    let subgraph = process_subgraph(pair);
    if let Some(rest) = rest {
        let first = Vertex::from(subgraph);
        Stmt::Edge(process_edge_rest(first, rest))
    } else {
        Stmt::Subgraph(subgraph)
    }'''))
r('x-graph-ctor', body(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''
    let mut strict = false;
    let mut directed = false;
    let mut id: Option<Id> = None;
    let mut stmts: Vec<Stmt> = Vec::new();
    for part in rule.into_inner() {
        match part.as_rule() {
            Rule::strict => strict = true,
            Rule::id => id = Some(process_id(part)),
            Rule::body => stmts = process_body(part),
            _ => directed = part.as_str().eq_ignore_ascii_case("digraph"),
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    if directed {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }'''))
r('x-graph-next', body(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''
    let mut graph_r = rule.into_inner();
    let mut current = graph_r.next().unwrap();
    let strict = current.as_rule() == Rule::strict;
    if strict {
        current = graph_r.next().unwrap();
    }
    let is_di = current.as_str().eq_ignore_ascii_case("digraph");
    current = graph_r.next().unwrap();
    let id = if current.as_rule() == Rule::id {
        let id = process_id(current);
        current = graph_r.next().unwrap();
        id
    } else {
        Id::Anonymous(rand::random::<u64>().to_string())
    };
    let stmts = process_body(current);
    match is_di {
        true => Graph::DiGraph { id, strict, stmts },
        false => Graph::Graph { id, strict, stmts },
    }'''))
r('x-kind-first', body(R, 'fn process_graph(rule: Pair<Rule>) -> Graph {', '''
    let mut graph_r = rule.into_inner();
    let strict = matches!(graph_r.peek(), Some(r) if r.as_rule() == Rule::strict);
    if strict {
        let _ = graph_r.next();
    }
    let keyword = graph_r.next().map(|r| r.as_str().len()).unwrap_or(0);
    let is_di = keyword == "digraph".len();
    let id = match graph_r.peek() {
        Some(r) if r.as_rule() == Rule::id => {
            graph_r.next();
            process_id(r)
        }
        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };
    let stmts = graph_r.next().map(process_body).unwrap();
    if is_di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }'''))
