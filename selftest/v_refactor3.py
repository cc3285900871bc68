"""A third wave of refactorings of the printer, the parser and the runner: every check has to stay quiet."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
P, R, C, L = 'src/printer.rs', 'src/parser.rs', 'src/cmd.rs', 'src/lib.rs'
PR = ['C%02d' % i for i in range(10, 19)]
V = []


def p(name, *e): V.append(('p3-' + name, 'quiet', list(e), PR_ALL))
def r(name, *e): V.append(('x3-' + name, 'quiet', list(e), PA_ALL))
def c(name, *e): V.append(('c3-' + name, 'quiet', list(e), ['C19', 'C20', 'C21', 'C22', 'C23', 'C24']))


PR_ALL = ['C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C31', 'C32', 'C33', 'C01', 'C03']
PA_ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C33']
IND = 'fn indent(&self) -> String {'
ATTRS = 'impl DotPrinter for Vec<Attribute> {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
ATTR = 'impl DotPrinter for Attribute {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
NODE = 'impl DotPrinter for Node {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
NID = 'impl DotPrinter for NodeId {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
PORT = 'impl DotPrinter for Port {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
GA = 'impl DotPrinter for GraphAttributes {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
SUB = 'impl DotPrinter for Subgraph {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
GR = 'impl DotPrinter for Graph {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
ST = 'impl DotPrinter for Vec<Stmt> {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
ONE = 'impl DotPrinter for Stmt {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'
PE = 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {'
ED = 'impl DotPrinter for Edge {\n    fn print(&self, ctx: &mut PrinterContext) -> String {'

# ---- printer
p('indent-take', body(P, IND, '''
        let width = match self.is_inline_on() {
            true => 0,
            false => self.indent,
        };
        std::iter::repeat(' ').take(width).collect()'''))
p('indent-width', body(P, IND, '''
        if self.is_inline_on() {
            return String::new();
        }
        format!("{:width$}", "", width = self.indent)'''))
p('indent-push', body(P, IND, '''
        let mut pad = String::with_capacity(self.indent);
        if !self.is_inline_on() {
            for _ in 0..self.indent {
                pad.push(' ');
            }
        }
        pad'''))
p('indent-cow', body(P, IND, '''
        let pad: std::borrow::Cow<str> = if self.is_inline_on() {
            "".into()
        } else {
            " ".repeat(self.indent).into()
        };
        pad.into_owned()'''))
p('grow-by', body(P, 'fn indent_grow(&mut self) {', '''
        self.indent += self.step();'''), body(P, 'fn indent_shrink(&mut self) {', '''
        self.indent -= self.step();
    }

    fn step(&self) -> usize {
        if self.is_inline_on() {
            0
        } else {
            self.indent_step
        }'''))
p('nested', body(P, 'fn multiline_mode(&mut self) {', '''
        self.l_s = self.l_s_m.clone()
    }
    fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.indent_grow();
        let out = f(self);
        self.indent_shrink();
        out'''), body(P, SUB, '''
        let indent = ctx.indent();
        ctx.nested(|ctx| {
            let id = self.id.print(ctx);
            let sep = ctx.l_s.clone();
            format!("subgraph {id} {{{sep}{}{sep}{indent}}}", self.stmts.print(ctx))
        })'''))
p('nested-graph', body(P, 'fn multiline_mode(&mut self) {', '''
        self.l_s = self.l_s_m.clone()
    }
    fn nested<T, F: FnOnce(&mut Self) -> T>(&mut self, f: F) -> T {
        self.indent_grow();
        let out = f(self);
        self.indent_shrink();
        out'''), body(P, GR, '''
        ctx.nested(|ctx| {
            let (kind, id, strict, stmts) = match self {
                Graph::Graph { id, strict, stmts } => ("graph", id, strict, stmts),
                Graph::DiGraph { id, strict, stmts } => ("digraph", id, strict, stmts),
            };
            ctx.is_digraph = kind == "digraph";
            let body = stmts.print(ctx);
            let prefix = if *strict { "strict " } else { "" };
            format!("{}{} {} {{{}{}{}}}", prefix, kind, id.print(ctx), ctx.l_s, body, ctx.l_s)
        })'''))
p('graph-words', body(P, GR, '''
        ctx.indent_grow();
        ctx.is_digraph = matches!(self, Graph::DiGraph { .. });
        let (Graph::Graph { id, strict, stmts } | Graph::DiGraph { id, strict, stmts }) = self;
        let mut words: Vec<String> = Vec::new();
        if *strict {
            words.push("strict".to_string());
        }
        words.push(if ctx.is_digraph { "digraph" } else { "graph" }.to_string());
        words.push(id.print(ctx));
        let body = stmts.print(ctx);
        words.push(["{", &ctx.l_s, &body, &ctx.l_s, "}"].concat());
        ctx.indent_shrink();
        words.join(" ")'''))
p('graph-writeln', body(P, GR, '''
        use std::fmt::Write;
        ctx.indent_grow();
        let mut out = String::new();
        let (id, stmts) = match self {
            Graph::Graph { id, strict, stmts } => {
                ctx.is_digraph = false;
                if *strict {
                    out += "strict ";
                }
                out += "graph ";
                (id, stmts)
            }
            Graph::DiGraph { id, strict, stmts } => {
                ctx.is_digraph = true;
                if *strict {
                    out += "strict ";
                }
                out += "digraph ";
                (id, stmts)
            }
        };
        write!(out, "{} {{{}", id.print(ctx), ctx.l_s).unwrap();
        out += &stmts.print(ctx);
        write!(out, "{}}}", ctx.l_s).unwrap();
        ctx.indent_shrink();
        out'''))
p('graph-keyword', body(P, GR, '''
        let keyword = match self {
            Graph::Graph { strict: true, .. } => "strict graph",
            Graph::Graph { strict: false, .. } => "graph",
            Graph::DiGraph { strict: true, .. } => "strict digraph",
            Graph::DiGraph { strict: false, .. } => "digraph",
        };
        ctx.is_digraph = keyword.ends_with("digraph");
        let (id, stmts) = match self {
            Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. } => (id, stmts),
        };
        block(keyword, id, stmts, "", ctx)'''), body(P, SUB, '''
        let indent = ctx.indent();
        block("subgraph", &self.id, &self.stmts, &indent, ctx)'''), item(P, 'impl DotPrinter for Vertex {', '''impl DotPrinter for Vertex {
    fn print(&self, ctx: &mut PrinterContext) -> String {
        match self {
            Vertex::N(el) => el.print(ctx),
            Vertex::S(el) => el.print(ctx),
        }
    }
}

fn block(keyword: &str, id: &Id, stmts: &Vec<Stmt>, indent: &str, ctx: &mut PrinterContext) -> String {
    ctx.indent_grow();
    let id = id.print(ctx);
    let body = stmts.print(ctx);
    let text = format!(
        "{keyword} {id} {{{sep}{body}{sep}{indent}}}",
        sep = ctx.l_s
    );
    ctx.indent_shrink();
    text
}'''))
p('edge-table', body(P, PE, '''
        const BONDS: [&str; 2] = [" -- ", " -> "];
        let bond = BONDS[ctx.is_digraph as usize];
        let tail = edge.attributes.print(ctx);
        match &edge.ty {
            EdgeTy::Pair(l, r) => {
                let space = if tail.is_empty() { "" } else { " " };
                [&l.print(ctx), bond, &r.print(ctx), space, &tail].concat()
            }
            EdgeTy::Chain(vs) => {
                let vs: Vec<_> = vs.iter().map(|v| v.print(ctx)).collect();
                vs.join(bond) + &tail
            }
        }'''))
p('edge-reduce', body(P, PE, '''
    let bond = if ctx.is_digraph { "->" } else { "--" };
    let vertices = match &edge.ty {
        EdgeTy::Pair(l, r) => vec![l, r],
        EdgeTy::Chain(vs) => vs.iter().collect(),
    };
    let joined = vertices
        .into_iter()
        .map(|v| v.print(ctx))
        .reduce(|acc, next| format!("{acc} {bond} {next}"))
        .unwrap_or_default();
    let attrs = edge.attributes.print(ctx);
    match edge.ty {
        EdgeTy::Pair(..) if !attrs.is_empty() => format!("{joined} {attrs}"),
        _ => joined + &attrs,
    }'''))
p('edge-enumerate', body(P, PE, '''
    let bond = if ctx.is_digraph { "->" } else { "--" };
    let mut text = String::new();
    match &edge.ty {
        EdgeTy::Pair(l, r) => {
            text.push_str(&l.print(ctx));
            text.push(' ');
            text.push_str(bond);
            text.push(' ');
            text.push_str(&r.print(ctx));
            if !edge.attributes.is_empty() {
                text.push(' ');
            }
        }
        EdgeTy::Chain(vs) => {
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    text.push(' ');
                    text.push_str(bond);
                    text.push(' ');
                }
                text.push_str(&v.print(ctx));
            }
        }
    }
    text.push_str(&edge.attributes.print(ctx));
    text'''))
p('edge-splitfirst', body(P, PE, '''
    let bond = if ctx.is_digraph { "->" } else { "--" };
    let Edge { ty, attributes } = edge;
    match ty {
        EdgeTy::Pair(l, r) => {
            let base = format!("{} {} {}", l.print(ctx), bond, r.print(ctx));
            match attributes.as_slice() {
                [] => base,
                _ => format!("{} {}", base, attributes.print(ctx)),
            }
        }
        EdgeTy::Chain(vs) => {
            let chain = match vs.split_first() {
                None => String::new(),
                Some((head, rest)) => rest.iter().fold(head.print(ctx), |mut acc, v| {
                    acc.push_str(&format!(" {} {}", bond, v.print(ctx)));
                    acc
                }),
            };
            chain + &attributes.print(ctx)
        }
    }'''))
p('edge-splitlast', body(P, PE, '''
    let bond = if ctx.is_digraph { "->" } else { "--" };
    match &edge.ty {
        EdgeTy::Pair(l, r) => {
            let mut s = l.print(ctx) + " " + bond + " " + &r.print(ctx);
            if !edge.attributes.is_empty() {
                s = s + " " + &edge.attributes.print(ctx);
            }
            s
        }
        EdgeTy::Chain(vs) => {
            let mut s = String::new();
            if let Some((last, init)) = vs.split_last() {
                for v in init {
                    s += &v.print(ctx);
                    s += " ";
                    s += bond;
                    s += " ";
                }
                s += &last.print(ctx);
            }
            s += &edge.attributes.print(ctx);
            s
        }
    }'''))
p('edge-inline-first', body(P, ED, '''
        if ctx.is_inline_on() {
            return print_edge(self, ctx);
        }
        let full = print_edge(self, ctx);
        if full.len() > ctx.inline_size {
            return full;
        }
        ctx.inline_mode();
        let short = print_edge(self, ctx);
        ctx.multiline_mode();
        short'''))
p('edge-fits', body(P, ED, '''
        let text = print_edge(self, ctx);
        let fits = text.len() <= ctx.inline_size;
        match (fits, ctx.is_inline_on()) {
            (true, false) => {
                ctx.inline_mode();
                let text = print_edge(self, ctx);
                ctx.multiline_mode();
                text
            }
            _ => text,
        }'''))
p('attrs-helper', body(P, ATTRS, '''
        let attrs = each(self, ctx);
        match attrs.len() {
            0 => String::new(),
            n if n > 1 && ctx.mult_node_attr_on_s_l => {
                let outer = ctx.indent();
                ctx.indent_grow();
                let inner = ctx.indent();
                let sep = ctx.l_s.clone();
                let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {
                    ","
                } else {
                    ""
                };
                let glue = [comma, sep.as_str(), inner.as_str()].concat();
                ctx.indent_shrink();
                format!("[{sep}{inner}{}{sep}{outer}]", attrs.join(&glue))
            }
            _ => format!("[{}]", attrs.join(" ")),
        }
    }
}

fn each<T: DotPrinter>(items: &[T], ctx: &mut PrinterContext) -> Vec<String> {
    let mut out = Vec::with_capacity(items.len());
    for item in items {
        out.push(item.print(ctx));
    }
    out
}

impl DotPrinter for [Attribute] {
    fn print(&self, ctx: &mut PrinterContext) -> String {
        self.to_vec().print(ctx)'''))
p('attrs-early', body(P, ATTRS, '''
        if self.is_empty() {
            return String::new();
        }
        let attrs: Vec<String> = self.iter().map(|a| a.print(ctx)).collect();
        let multiline = ctx.mult_node_attr_on_s_l && attrs.len() >= 2;
        if !multiline {
            return format!("[{}]", attrs.join(" "));
        }
        let close = format!("{}{}]", ctx.l_s, ctx.indent());
        ctx.indent_grow();
        let open = format!("[{}{}", ctx.l_s, ctx.indent());
        let with_comma = ctx.mult_node_attr_on_s_l_comma || ctx.is_inline_on();
        let mut glue = String::from(if with_comma { "," } else { "" });
        glue += &ctx.l_s;
        glue += &ctx.indent();
        ctx.indent_shrink();
        open + &attrs.join(&glue) + &close'''))
p('attrs-loop', body(P, ATTRS, '''
        let count = self.len();
        if count == 0 {
            return "".to_owned();
        }
        let mut out = String::from("[");
        if count > 1 && ctx.mult_node_attr_on_s_l {
            let printed: Vec<String> = self.iter().map(|a| a.print(ctx)).collect();
            let outer = ctx.indent();
            ctx.indent_grow();
            for (i, a) in printed.iter().enumerate() {
                if i != 0 && (ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma) {
                    out.push(',');
                }
                out.push_str(&ctx.l_s);
                out.push_str(&ctx.indent());
                out.push_str(a);
            }
            out.push_str(&ctx.l_s);
            out.push_str(&outer);
            ctx.indent_shrink();
        } else {
            for (i, a) in self.iter().enumerate() {
                if i != 0 {
                    out.push(' ');
                }
                out.push_str(&a.print(ctx));
            }
        }
        out.push(']');
        out'''))
p('attr-map', body(P, ATTR, '''
        let Attribute(key, value) = self;
        let name = key.print(ctx);
        let text = value.print(ctx);
        let shown = ctx
            .attr_value_printers
            .get(key)
            .map(|f| f(&text, &ctx.l_s, &ctx.indent(), ctx.indent_step))
            .unwrap_or(text);
        name + "=" + &shown'''))
p('attr-contains', body(P, ATTR, '''
        let mut text = self.0.print(ctx);
        text.push('=');
        let value = self.1.print(ctx);
        if ctx.attr_value_printers.contains_key(&self.0) {
            let printer = &ctx.attr_value_printers[&self.0];
            text.push_str(&printer(&value, &ctx.l_s, &ctx.indent(), ctx.indent_step));
        } else {
            text.push_str(&value);
        }
        text'''))
p('attr-match', body(P, ATTR, '''
        let value = self.1.print(ctx);
        let value = match ctx.attr_value_printers.get(&self.0) {
            None => value,
            Some(custom) => {
                let indent = ctx.indent();
                custom(value.as_str(), ctx.l_s.as_str(), indent.as_str(), ctx.indent_step)
            }
        };
        [self.0.print(ctx), value].join("=")'''))
p('node-chain', body(P, NODE, '''
        let mut out = self.id.print(ctx);
        let attrs = self.attributes.print(ctx);
        out.extend([attrs]);
        out'''))
p('nid-map', body(P, NID, '''
        let NodeId(id, port) = self;
        let port = port.as_ref().map_or_else(String::new, |p| p.print(ctx));
        format!("{}{}", id.print(ctx), port)'''))
p('nid-iter', body(P, NID, '''
        let mut out = self.0.print(ctx);
        for port in self.1.iter() {
            out.push_str(&port.print(ctx));
        }
        out'''))
p('port-map', body(P, PORT, '''
        let Port(id, side) = self;
        let id = id.as_ref().map(|id| format!(":{}", id.print(ctx)));
        let side = side.as_ref().map(|side| format!(":{}", side));
        id.unwrap_or_default() + &side.unwrap_or_default()'''))
p('port-chain', body(P, PORT, '''
        let id = self.0.as_ref().map(|id| id.print(ctx));
        id.iter()
            .chain(self.1.iter())
            .map(|part| format!(":{part}"))
            .collect()'''))
p('ga-tuple', body(P, GA, '''
        let (kind, attrs) = match self {
            GraphAttributes::Graph(a) => ("graph", a),
            GraphAttributes::Node(a) => ("node", a),
            GraphAttributes::Edge(a) => ("edge", a),
        };
        let list = match attrs.is_empty() {
            true => "[]".to_string(),
            false => attrs.print(ctx),
        };
        kind.to_string() + &list'''))
p('ga-filter', body(P, GA, '''
        let (GraphAttributes::Graph(attrs) | GraphAttributes::Node(attrs) | GraphAttributes::Edge(attrs)) = self;
        let name = match self {
            GraphAttributes::Graph(_) => "graph",
            GraphAttributes::Node(_) => "node",
            GraphAttributes::Edge(_) => "edge",
        };
        let list = Some(attrs.print(ctx)).filter(|s| !s.is_empty());
        format!("{}{}", name, list.as_deref().unwrap_or("[]"))'''))
p('stmts-map', body(P, ST, '''
        let sep = ctx.l_s.clone();
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if sep != "" {
            return stmts.join(&sep);
        }
        let mut out = String::new();
        let mut tight = true;
        for stmt in &stmts {
            if !tight {
                out += " ";
            }
            out += stmt;
            tight = stmt.ends_with(']') || stmt.ends_with('}') || stmt.ends_with(';');
        }
        out'''))
p('stmts-windows', body(P, ST, '''
        fn closes(text: &str) -> bool {
            matches!(text.chars().last(), Some(']' | '}' | ';'))
        }
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        match ctx.l_s.is_empty() {
            false => stmts.join(&ctx.l_s),
            true => {
                let mut r = String::new();
                let mut stmts = stmts.into_iter();
                if let Some(first) = stmts.next() {
                    let mut last = first;
                    for next in stmts {
                        r.push_str(&last);
                        if !closes(&last) {
                            r.push(' ');
                        }
                        last = next;
                    }
                    r.push_str(&last);
                }
                r
            }
        }
'''))
p('stmts-glue', body(P, ST, '''
        let mut r = String::new();
        let mut prev: Option<String> = None;
        for e in self {
            let text = e.print(ctx);
            if let Some(prev) = &prev {
                let glue = if !ctx.l_s.is_empty() {
                    ctx.l_s.as_str()
                } else if prev.ends_with(&[']', '}', ';'][..]) {
                    ""
                } else {
                    " "
                };
                r.push_str(glue);
            }
            r.push_str(&text);
            prev = Some(text);
        }
        r'''))
p('stmts-sep', body(P, ST, '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if !ctx.is_inline_on() {
            return stmts.join(&ctx.l_s);
        }
        let mut out = String::new();
        let mut sep = "";
        for stmt in stmts.iter() {
            out.push_str(sep);
            out.push_str(stmt);
            sep = if stmt.ends_with([']', '}', ';']) { "" } else { " " };
        }
        out'''))
p('stmts-fold', body(P, ST, '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if !ctx.l_s.is_empty() {
            return stmts.join(&ctx.l_s);
        }
        let (out, _) = stmts.iter().fold((String::new(), true), |(mut out, closed), stmt| {
            if !closed {
                out.push(' ');
            }
            out.push_str(stmt);
            (out, stmt.ends_with(|c| c == ']' || c == '}' || c == ';'))
        });
        out'''))
p('stmts-lastchar', body(P, ST, '''
        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if !ctx.l_s.is_empty() {
            return stmts.join(&ctx.l_s);
        }
        let mut out = String::new();
        for (i, stmt) in stmts.iter().enumerate() {
            if i > 0 {
                match stmts[i - 1].chars().next_back() {
                    Some(']') | Some('}') | Some(';') => {}
                    _ => out.push(' '),
                }
            }
            out.push_str(stmt);
        }
        out'''))
p('stmt-let', body(P, ONE, '''
        let mut out = ctx.indent();
        let semi = ctx.semi;
        out.push_str(&match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        });
        out.push_str(if semi { ";" } else { "" });
        out'''))
p('stmt-then', body(P, ONE, '''
        let end = ctx.semi.then_some(";").unwrap_or_default();
        let indent = ctx.indent();
        let body = match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        };
        vec![indent, body, end.to_string()].concat()'''))
p('stmt-macro', body(P, ONE, '''
        macro_rules! line {
            ($e:expr) => {{
                let indent = ctx.indent();
                let text = $e.print(ctx);
                if ctx.semi {
                    format!("{indent}{text};")
                } else {
                    indent + &text
                }
            }};
        }
        match self {
            Stmt::Node(e) => line!(e),
            Stmt::Subgraph(e) => line!(e),
            Stmt::Attribute(e) => line!(e),
            Stmt::GAttribute(e) => line!(e),
            Stmt::Edge(e) => line!(e),
        }'''))
p('id-as', body(P, 'impl DotPrinter for Id {\n    fn print(&self, _ctx: &mut PrinterContext) -> String {', '''
        let text: &str = match self {
            Id::Html(v) => v,
            Id::Escaped(v) => v,
            Id::Plain(v) => v,
            Id::Anonymous(_) => "",
        };
        String::from(text)'''))
p('ls-setter', body(P, 'pub fn always_inline(&mut self) -> &mut PrinterContext {', '''
        let inline = self.l_s_i.to_owned();
        self.with_line_sep(inline)'''))
p('ls-from', body(P, 'pub fn with_line_sep(&mut self, sep: String) -> &mut PrinterContext {', '''
        self.l_s_m = sep;
        self.multiline_mode();
        self'''))
p('mode-clonefrom', body(P, 'fn inline_mode(&mut self) {', '''
        self.l_s.clone_from(&self.l_s_i);'''), body(P, 'fn multiline_mode(&mut self) {', '''
        self.l_s.clone_from(&self.l_s_m);'''))
p('mode-clear', body(P, 'fn is_inline_on(&self) -> bool {', '''
        self.l_s.as_str().eq(self.l_s_i.as_str())'''))
p('new-default', body(P, 'pub fn new(semi: bool, indent_step: usize, line_s: String, inline_size: usize) -> Self {', '''
        let mut ctx = Self::default();
        ctx.with_indent_step(indent_step)
            .with_inline_size(inline_size)
            .with_line_sep(line_s);
        ctx.semi = semi;
        ctx'''))
p('sub-parts', body(P, SUB, '''
        let Subgraph { id, stmts } = self;
        let indent = ctx.indent();
        ctx.indent_grow();
        let parts = [
            "subgraph ".to_string(),
            id.print(ctx),
            " {".to_string(),
            ctx.l_s.clone(),
            stmts.print(ctx),
            ctx.l_s.clone(),
            indent,
            "}".to_string(),
        ];
        ctx.indent_shrink();
        parts.concat()'''))
p('sub-iter', body(P, SUB, '''
        let indent = ctx.indent();
        ctx.indent_grow();
        let id = self.id.print(ctx);
        let body = self.stmts.print(ctx);
        let sep = ctx.l_s.as_str();
        let text = ["subgraph ", &id, " {", sep, &body, sep, &indent, "}"]
            .iter()
            .copied()
            .collect::<String>();
        ctx.indent_shrink();
        text'''))

# ---- parser
AL = 'fn process_attr_list(rule: Pair<Rule>) -> Vec<Attribute> {'
BA = 'fn process_bare_attr(rule: Pair<Rule>) -> Attribute {'
ID = 'fn process_id(rule: Pair<Rule>) -> Id {'
CM = 'fn parse_compass_manually(id: Id) -> Option<String> {'
PO = 'fn process_port(port: Pair<Rule>) -> Port {'
NI = 'fn process_node_id(rule: Pair<Rule>) -> NodeId {'
SG = 'fn process_subgraph(rule: Pair<Rule>) -> Subgraph {'
BO = 'fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {'
NO = 'fn process_node(rule: Pair<Rule>) -> Node {'
VE = 'fn process_vertex(rule: Pair<Rule>) -> Vertex {'
EG = 'fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {'
ET = 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {'
ER = 'fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {'
ES = 'fn process_edge_stmt(rule: Pair<Rule>) -> Edge {'
AS = 'fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {'
SM = 'fn process_stmt(rule: Pair<Rule>) -> Stmt {'
PG = 'fn process_graph(rule: Pair<Rule>) -> Graph {'

r('list-map', body(R, AL, '''
    rule.into_inner().map(process_attr).collect()'''))
r('list-for', body(R, AL, '''
    let mut attrs = Vec::new();
    for pair in rule.into_inner() {
        let attr = process_attr(pair);
        attrs.push(attr);
    }
    attrs'''))
r('list-extend', body(R, AL, '''
    let inner = rule.into_inner();
    let mut attrs = Vec::with_capacity(inner.len());
    attrs.extend(inner.map(|pair| process_attr(pair)));
    attrs'''))
r('list-loop', body(R, AL, '''
    let mut pairs = rule.into_inner();
    let mut attrs = vec![];
    loop {
        match pairs.next() {
            None => break attrs,
            Some(pair) => attrs.push(process_attr(pair)),
        }
    }'''))
r('list-fold', body(R, AL, '''
    rule.into_inner().fold(vec![], |mut acc, pair| {
        acc.push(process_attr(pair));
        acc
    })'''))
r('bare-tuple', body(R, BA, '''
    let mut attr = rule.into_inner();
    match (attr.next(), attr.next()) {
        (Some(key), Some(val)) => Attribute(process_id(key), process_id(val)),
        _ => unreachable!("an attribute has a key and a value"),
    }'''))
r('bare-map', body(R, BA, '''
    let mut ids = rule.into_inner().map(process_id);
    let key = ids.next().unwrap();
    Attribute(key, ids.next().unwrap())'''))
r('bare-array', body(R, BA, '''
    let ids: Vec<Id> = rule.into_inner().map(process_id).collect();
    let [key, val]: [Id; 2] = ids.try_into().unwrap();
    Attribute(key, val)'''))
r('bare-letelse', body(R, BA, '''
    let mut attr = rule.into_inner();
    let (Some(key), Some(val)) = (attr.next(), attr.next()) else {
        panic!("malformed attribute")
    };
    Attribute(process_id(key), process_id(val))'''))
r('id-ctor', body(R, ID, '''
    let text = rule.as_str();
    let make: fn(String) -> Id = match rule.clone().into_inner().next().unwrap().as_rule() {
        Rule::plain => Id::Plain,
        Rule::html => Id::Html,
        Rule::string_qt => Id::Escaped,
        p => panic!("unreachable, got {:?}", p),
    };
    make(text.to_owned())'''))
r('id-kind', body(R, ID, '''
    let text = rule.as_str();
    let kind = down(rule).as_rule();
    if kind == Rule::plain {
        Id::Plain(text.into())
    } else if kind == Rule::html {
        Id::Html(text.into())
    } else if kind == Rule::string_qt {
        Id::Escaped(text.into())
    } else {
        unreachable!("got {:?}", kind)
    }'''))
r('compass-const', body(R, CM, '''
    const SIDES: &[&str] = &["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
    match id {
        Id::Plain(s) if SIDES.contains(&s.as_str()) => Some(s),
        _ => None,
    }'''))
r('compass-any', body(R, CM, '''
    let Id::Plain(s) = id else { return None };
    let known = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"]
        .iter()
        .any(|side| *side == s);
    known.then_some(s)'''))
r('compass-filter', body(R, CM, '''
    let text = match id {
        Id::Plain(s) => Some(s),
        _ => None,
    };
    text.filter(|s| matches!(s.as_str(), "n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"))'''))
r('port-letelse', body(R, PO, '''
    let mut parts = port.into_inner();
    let Some(first) = parts.next() else {
        panic!("port can not be empty")
    };
    if first.as_rule() == Rule::compass {
        return Port(None, Some(first.as_str().to_string()));
    }
    let id = process_id(first);
    match parts.next() {
        Some(side) => Port(Some(id), Some(side.as_str().to_string())),
        None => match parse_compass_manually(id.clone()) {
            Some(side) => Port(None, Some(side)),
            None => Port(Some(id), None),
        },
    }'''))
r('port-two', body(R, PO, '''
    let mut parts = port.into_inner();
    let first = parts.next().expect("port can not be empty");
    let second = parts.next().map(|p| p.as_str().to_string());
    match (first.as_rule(), second) {
        (Rule::compass, _) => Port(None, Some(first.as_str().to_string())),
        (Rule::id, Some(side)) => Port(Some(process_id(first)), Some(side)),
        (Rule::id, None) => {
            let id = process_id(first);
            if let Some(side) = parse_compass_manually(id.clone()) {
                Port(None, Some(side))
            } else {
                Port(Some(id), None)
            }
        }
        _ => panic!("unreachable!"),
    }'''))
r('nid-map', body(R, NI, '''
    let mut parts = rule.into_inner();
    let id = process_id(parts.next().unwrap());
    NodeId(id, parts.next().map(process_port))'''))
r('nid-find', body(R, NI, '''
    let id = process_id(down(rule.clone()));
    let port = rule
        .into_inner()
        .find(|p| p.as_rule() == Rule::port)
        .map(process_port);
    NodeId(id, port)'''))
r('nid-nth', body(R, NI, '''
    let mut inner = rule.into_inner();
    let id = inner.next().map(process_id);
    let port = inner.next().map(process_port);
    NodeId(id.unwrap(), port)'''))
r('anon', body(R, SG, '''
    let mut inner = rule.into_inner();
    let id = take_id(&mut inner);
    let stmts = inner.next().map(process_body).unwrap();
    Subgraph { id, stmts }
}

fn take_id(pairs: &mut Pairs<Rule>) -> Id {
    let named = pairs.peek().map_or(false, |p| p.as_rule() == Rule::id);
    if named {
        process_id(pairs.next().unwrap())
    } else {
        Id::Anonymous(rand::random::<u64>().to_string())
    }'''), body(R, PG, '''
    let mut graph_r = rule.into_inner();
    let mut head = graph_r.next().unwrap();
    let strict = head.as_rule() == Rule::strict;
    if strict {
        head = graph_r.next().unwrap();
    }
    let is_di = head.as_str().eq_ignore_ascii_case("digraph");
    let id = take_id(&mut graph_r);
    let stmts = process_body(graph_r.next().unwrap());
    match is_di {
        true => Graph::DiGraph { id, strict, stmts },
        false => Graph::Graph { id, strict, stmts },
    }'''))
r('sub-match', body(R, SG, '''
    let mut sub_r = rule.into_inner();
    let first = sub_r.next().unwrap();
    let (id, body) = match first.as_rule() {
        Rule::id => (process_id(first), sub_r.next().unwrap()),
        _ => (Id::Anonymous(rand::random::<u64>().to_string()), first),
    };
    Subgraph {
        id,
        stmts: process_body(body),
    }'''))
r('sub-next', body(R, SG, '''
    let mut id = None;
    let mut stmts = vec![];
    for pair in rule.into_inner() {
        if pair.as_rule() == Rule::id {
            id = Some(process_id(pair));
        } else {
            stmts = process_body(pair);
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    Subgraph { id, stmts }'''))
r('body-map', body(R, BO, '''
    rule.into_inner().map(process_stmt).collect::<Vec<_>>()'''))
r('body-whilelet', body(R, BO, '''
    let mut inner = rule.into_inner();
    let mut stmts = vec![];
    while let Some(stmt) = inner.next() {
        stmts.push(process_stmt(stmt));
    }
    stmts'''))
r('node-default', body(R, NO, '''
    let mut node_r = rule.into_inner();
    let id = process_node_id(node_r.next().unwrap());
    let attributes = node_r.next().map(process_attr_list).unwrap_or_default();
    Node { id, attributes }'''))
r('node-new', body(R, NO, '''
    let mut node_r = rule.into_inner();
    let id = node_r.next().map(process_node_id).unwrap();
    let attributes = match node_r.next() {
        Some(list) => process_attr_list(list),
        None => Vec::new(),
    };
    Node::new(id, attributes)'''))
r('node-flat', body(R, NO, '''
    let mut node_r = rule.into_inner();
    let id = process_node_id(node_r.next().unwrap());
    let attributes = node_r.flat_map(process_attr_list).collect();
    Node { id, attributes }'''))
r('node-mut', body(R, NO, '''
    let mut node_r = rule.into_inner();
    let mut node = Node {
        id: process_node_id(node_r.next().unwrap()),
        attributes: vec![],
    };
    if let Some(list) = node_r.next() {
        node.attributes.extend(process_attr_list(list));
    }
    node'''))
r('vertex-into', body(R, VE, '''
    let inner = down(rule);
    if inner.as_rule() == Rule::subgraph {
        Vertex::S(process_subgraph(inner))
    } else {
        Vertex::N(process_node_id(inner))
    }'''))
r('edge-map', body(R, EG, '''
    let mut pairs = rule.into_inner();
    let first = pairs.next().unwrap();
    std::iter::once(process_vertex(first))
        .chain(pairs.map(|tail| process_vertex(down(tail))))
        .collect()'''))
r('edge-rule', body(R, EG, '''
    rule.into_inner()
        .map(|pair| match pair.as_rule() {
            Rule::vertex => process_vertex(pair),
            _ => process_vertex(down(pair)),
        })
        .collect()'''))
r('edge-extend', body(R, EG, '''
    let mut edge_r = rule.into_inner();
    let mut chain = vec![process_vertex(edge_r.next().unwrap())];
    chain.extend(edge_r.map(down).map(process_vertex));
    chain'''))
r('ty-iter', body(R, ET, '''
    let mut edges = edges;
    match edges.len() {
        0 | 1 => panic!("an edge has two ends"),
        2 => {
            let right = edges.pop().unwrap();
            let left = edges.pop().unwrap();
            EdgeTy::Pair(left, right)
        }
        _ => EdgeTy::Chain(edges),
    }'''))
r('ty-array', body(R, ET, '''
    match <[Vertex; 2]>::try_from(edges) {
        Ok([left, right]) => EdgeTy::Pair(left, right),
        Err(edges) => EdgeTy::Chain(edges),
    }'''))
r('ty-remove', body(R, ET, '''
    let mut edges = edges;
    if edges.len() == 2 {
        let left = edges.remove(0);
        let right = edges.remove(0);
        EdgeTy::Pair(left, right)
    } else {
        EdgeTy::Chain(edges)
    }'''))
r('rest-partition', body(R, ER, '''
    let (tails, lists): (Vec<_>, Vec<_>) = rest
        .into_inner()
        .partition(|p| p.as_rule() == Rule::edge_tail);
    let mut edges = vec![first];
    edges.extend(tails.into_iter().map(|t| process_vertex(down(t))));
    let attributes = lists.into_iter().next().map(process_attr_list).unwrap_or_default();
    Edge {
        ty: process_edge_ty(edges),
        attributes,
    }'''))
r('rest-peek', body(R, ER, '''
    let mut pairs = rest.into_inner().peekable();
    let mut edges = vec![first];
    while let Some(tail) = pairs.next_if(|p| p.as_rule() == Rule::edge_tail) {
        edges.push(process_vertex(down(tail)));
    }
    let attributes = pairs.next().map(process_attr_list).unwrap_or_default();
    Edge { ty: process_edge_ty(edges), attributes }'''))
r('rest-if', body(R, ER, '''
    let mut edges = vec![first];
    let mut attributes = Vec::new();
    for r in rest.into_inner() {
        if r.as_rule() == Rule::edge_tail {
            let vertex = down(r);
            edges.push(process_vertex(vertex));
            continue;
        }
        attributes = process_attr_list(r);
    }
    let ty = process_edge_ty(edges);
    Edge { ty, attributes }'''))
r('estmt-map', body(R, ES, '''
    let mut edge_r = rule.into_inner();
    let vertices = process_edge(edge_r.next().unwrap());
    let attributes = edge_r.next().map_or_else(Vec::new, process_attr_list);
    Edge { ty: process_edge_ty(vertices), attributes }'''))
r('astmt-match', body(R, AS, '''
    let mut stmts_r = rule.into_inner();
    let mark = stmts_r.next().unwrap();
    let attrs = stmts_r.next().map(process_attr_list).unwrap();
    let mark = mark.as_str();
    if mark.eq_ignore_ascii_case("graph") {
        GraphAttributes::Graph(attrs)
    } else if mark.eq_ignore_ascii_case("node") {
        GraphAttributes::Node(attrs)
    } else {
        GraphAttributes::Edge(attrs)
    }'''))
r('astmt-lower', body(R, AS, '''
    let mut stmts_r = rule.into_inner();
    let mark = stmts_r.next().unwrap().as_str().to_lowercase();
    let attrs = process_attr_list(stmts_r.next().unwrap());
    match mark.as_str() {
        "graph" => GraphAttributes::Graph(attrs),
        "node" => GraphAttributes::Node(attrs),
        "edge" => GraphAttributes::Edge(attrs),
        _ => unreachable!(),
    }'''))
r('stmt-helper', body(R, SM, '''
    let mut rule_r = rule.into_inner();
    let head = rule_r.next().unwrap();
    let kind = head.as_rule();
    match kind {
        Rule::attr_stmt => process_attr_stmt(head).into(),
        Rule::subgraph => subgraph_stmt(head, rule_r.next()),
        Rule::node => process_node(head).into(),
        Rule::bare_attr => process_bare_attr(head).into(),
        Rule::edge_stmt => process_edge_stmt(head).into(),
        _ => unreachable!(),
    }
}

fn subgraph_stmt(head: Pair<Rule>, rest: Option<Pair<Rule>>) -> Stmt {
    let subgraph = process_subgraph(head);
    if let Some(rest) = rest {
        process_edge_rest(Vertex::S(subgraph), rest).into()
    } else {
        subgraph.into()
    }'''))
r('stmt-rest', body(R, SM, '''
    let mut rule_r = rule.into_inner();
    match (rule_r.next().unwrap(), rule_r.next()) {
        (head, Some(rest)) => {
            Stmt::Edge(process_edge_rest(Vertex::S(process_subgraph(head)), rest))
        }
        (head, None) => match head.as_rule() {
            Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(head)),
            Rule::subgraph => Stmt::Subgraph(process_subgraph(head)),
            Rule::node => Stmt::Node(process_node(head)),
            Rule::bare_attr => Stmt::Attribute(process_bare_attr(head)),
            Rule::edge_stmt => Stmt::Edge(process_edge_stmt(head)),
            _ => unreachable!(),
        },
    }'''))
r('graph-loop', body(R, PG, '''
    let mut strict = false;
    let mut is_di = false;
    let mut id = None;
    let mut stmts = vec![];
    for (i, pair) in rule.into_inner().enumerate() {
        match pair.as_rule() {
            Rule::strict => strict = true,
            Rule::id => id = Some(process_id(pair)),
            Rule::body => stmts = process_body(pair),
            _ => {
                let _ = i;
                is_di = pair.as_str().eq_ignore_ascii_case("digraph")
            }
        }
    }
    let id = id.unwrap_or_else(|| Id::Anonymous(rand::random::<u64>().to_string()));
    if is_di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }'''))
r('graph-nextif', body(R, PG, '''
    let mut pairs = rule.into_inner().peekable();
    let strict = pairs.next_if(|p| p.as_rule() == Rule::strict).is_some();
    let kind = pairs.next().unwrap();
    let id = match pairs.next_if(|p| p.as_rule() == Rule::id) {
        Some(id) => process_id(id),
        None => Id::Anonymous(rand::random::<u64>().to_string()),
    };
    let stmts = pairs.next().map(process_body).unwrap();
    if kind.as_str().eq_ignore_ascii_case("digraph") {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }'''))
r('parse-q', body(R, 'pub(crate) fn parse(dot: &str) -> Result<Graph, String> {', '''
    let mut pairs = do_parse(dot, Rule::file).map_err(|e| e.to_string())?;
    let file = pairs.next().unwrap();
    Ok(process_graph(down(file)))'''))
r('parse-match', body(R, 'pub(crate) fn parse(dot: &str) -> Result<Graph, String> {', '''
    match DotParser::parse(Rule::file, dot) {
        Err(error) => Err(format!("{}", error)),
        Ok(mut pairs) => {
            let root = pairs.next().and_then(|file| file.into_inner().next());
            Ok(process_graph(root.unwrap()))
        }
    }'''))
r('trait', body(R, BO, '''
    all(rule)
}

trait FromPair {
    fn from_pair(pair: Pair<Rule>) -> Self;
}

impl FromPair for Stmt {
    fn from_pair(pair: Pair<Rule>) -> Self {
        process_stmt(pair)
    }
}

impl FromPair for Attribute {
    fn from_pair(pair: Pair<Rule>) -> Self {
        process_attr(pair)
    }
}

fn all<T: FromPair>(pair: Pair<Rule>) -> Vec<T> {
    pair.into_inner().map(T::from_pair).collect()'''), body(R, AL, '''
    all(rule)'''))

# ---- runner
EX = 'pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {'
DO = 'fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {'
TF = 'fn temp_file(ctx: String) -> io::Result<NamedTempFile> {'
PP = 'fn prepare(&self) -> String {'
c('fs-write', body(C, TF, '''
    let file = NamedTempFile::new()?;
    std::fs::write(file.path(), ctx)?;
    Ok(file)'''))
c('writefmt', body(C, TF, '''
    let mut file = NamedTempFile::new()?;
    write!(file, "{}", ctx)?;
    file.flush()?;
    Ok(file)'''))
c('asfile', body(C, TF, '''
    let mut file = NamedTempFile::new()?;
    file.as_file_mut().write_all(ctx.as_bytes())?;
    Ok(file)'''))
c('builder', body(C, TF, '''
    let mut file = tempfile::Builder::new().tempfile()?;
    match file.write_all(ctx.as_bytes()) {
        Ok(()) => Ok(file),
        Err(e) => Err(e),
    }'''))
c('copy', body(C, TF, '''
    let mut file = NamedTempFile::new()?;
    io::copy(&mut ctx.as_bytes(), &mut file)?;
    Ok(file)'''))
c('bufwriter', body(C, TF, '''
    let file = NamedTempFile::new()?;
    {
        let mut out = io::BufWriter::new(&file);
        out.write_all(ctx.as_bytes())?;
        out.flush()?;
    }
    Ok(file)'''))
c('args-foreach', body(C, DO, '''
    let mut command = Command::new("dot");
    args.iter().for_each(|arg| {
        command.arg(arg);
    });
    command.arg(input);
    command.output()'''))
c('args-chain', body(C, DO, '''
    Command::new("dot").args(&args).arg(input).output()'''))
c('args-os', body(C, DO, '''
    let mut all: Vec<std::ffi::OsString> = args.into_iter().map(Into::into).collect();
    all.push(input.as_os_str().to_owned());
    Command::new("dot").args(all).output()'''))
c('exec-q', body(C, EX, '''
    let args: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let path = temp_file(graph)?.into_temp_path();
    let output = do_exec(&path, args)?;
    path.close()?;
    if output.status.success() {
        Ok(output.stdout)
    } else {
        let mes = String::from_utf8_lossy(&output.stderr).into_owned();
        Err(io::Error::new(ErrorKind::Other, mes))
    }'''))
c('exec-code', body(C, EX, '''
    let args: Vec<String> = args.into_iter().map(|a| a.prepare()).collect();
    let file = temp_file(graph)?;
    let path = file.into_temp_path();
    let Output { status, stdout, stderr } = do_exec(&path, args)?;
    let result = match status.code() {
        Some(0) => Ok(stdout),
        _ => Err(failure(&stderr)),
    };
    path.close()?;
    result
}

fn failure(stderr: &[u8]) -> io::Error {
    io::Error::new(ErrorKind::Other, String::from_utf8_lossy(stderr).to_string())'''))
c('exec-loop', body(C, EX, '''
    let mut prepared = Vec::with_capacity(args.len());
    for arg in &args {
        prepared.push(arg.prepare());
    }
    let file = temp_file(graph)?;
    let path = file.into_temp_path();
    let out = do_exec(path.as_ref(), prepared)?;
    let ok = out.status.code() == Some(0);
    if !ok {
        let mes = String::from_utf8_lossy(&out.stderr).to_string();
        path.close()?;
        return Err(io::Error::new(ErrorKind::Other, mes));
    }
    path.close()?;
    Ok(out.stdout)'''))
c('prep-flag', body(C, PP, '''
        let (flag, value) = match self {
            CommandArg::Custom(s) => return s.to_string(),
            CommandArg::Output(p) => ("-o", p.clone()),
            CommandArg::Layout(l) => ("-K", l.name()),
            CommandArg::Format(f) => ("-T", f.name()),
        };
        flag.to_owned() + &value
    }
}

impl Layout {
    fn name(&self) -> String {
        if let Layout::Asage = self {
            return String::from("osage");
        }
        format!("{:?}", self).to_lowercase()
    }
}

impl Format {
    fn name(&self) -> String {
        let special = match self {
            Format::Xdot12 => Some("xdot1.2"),
            Format::Xdot14 => Some("xdot1.4"),
            Format::ImapNp => Some("imap_np"),
            Format::CmapxNp => Some("cmapx_np"),
            Format::DotJson => Some("dot_json"),
            Format::XdotJson => Some("xdot_json"),
            Format::PlainExt => Some("plain-ext"),
            Format::Vbmp => Some("wbmp"),
            _ => None,
        };
        special
            .map(str::to_string)
            .unwrap_or_else(|| format!("{:?}", self).to_ascii_lowercase())'''))
c('prep-layouts', body(C, PP, '''
        match self {
            CommandArg::Custom(s) => s.clone(),
            CommandArg::Output(p) => ["-o", p].concat(),
            CommandArg::Layout(l) => {
                const NAMES: [&str; 8] =
                    ["dot", "neato", "twopi", "circo", "fdp", "osage", "patchwork", "sfdp"];
                String::from("-K") + NAMES[*l as usize]
            }
            CommandArg::Format(f) => {
                let mut name = String::from("-T");
                match f {
                    Format::Xdot12 => name.push_str("xdot1.2"),
                    Format::Xdot14 => name.push_str("xdot1.4"),
                    Format::ImapNp => name.push_str("imap_np"),
                    Format::CmapxNp => name.push_str("cmapx_np"),
                    Format::DotJson => name.push_str("dot_json"),
                    Format::XdotJson => name.push_str("xdot_json"),
                    Format::PlainExt => name.push_str("plain-ext"),
                    Format::Vbmp => name.push_str("wbmp"),
                    other => name += &format!("{:?}", other).to_lowercase(),
                }
                name
            }
        }'''))
c('prep-from', body(C, PP, '''
        String::from(self)
    }
}

impl From<&CommandArg> for String {
    fn from(arg: &CommandArg) -> Self {
        match arg {
            CommandArg::Custom(s) => s.clone(),
            CommandArg::Output(p) => format!("-o{p}"),
            CommandArg::Layout(Layout::Asage) => "-Kosage".into(),
            CommandArg::Layout(l) => format!("-K{}", format!("{l:?}").to_lowercase()),
            CommandArg::Format(f) => {
                let name = match f {
                    Format::Xdot12 => "xdot1.2",
                    Format::Xdot14 => "xdot1.4",
                    Format::ImapNp => "imap_np",
                    Format::CmapxNp => "cmapx_np",
                    Format::DotJson => "dot_json",
                    Format::XdotJson => "xdot_json",
                    Format::PlainExt => "plain-ext",
                    Format::Vbmp => "wbmp",
                    _ => return format!("-T{}", format!("{f:?}").to_lowercase()),
                };
                format!("-T{name}")
            }
        }'''))
if __name__ == '__main__':
    print(len(V))
