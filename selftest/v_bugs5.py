"""A fifth wave of bugs, written from the properties with fresh eyes: partly rewritten code with a slip in it."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
from v_bugs4 import field, P, R, C, L, S, G, D
V = []


def b(name, prop, *e): V.append(('b5-' + name, prop, list(e)))


NODE_PRINT = 'format!("{}{}", self.id.print(ctx), self.attributes.print(ctx))'
EDGE_ONCE = '''        if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {
            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();
        }
'''
# --- statements in the printer
b('stmt-fold', 'C10', body(P, 'impl DotPrinter for Vec<Stmt>', '''fn print(&self, ctx: &mut PrinterContext) -> String {
        let mut r = String::new();
        let mut rest = self.as_slice();
        while let [first, tail @ ..] = rest {
            let text = first.print(ctx);
            if !r.is_empty() {
                if !ctx.l_s.is_empty() {
                    r.push_str(&ctx.l_s);
                } else if !r.ends_with([']', '}', ';']) {
                    r.push(' ');
                }
            }
            r.push_str(&text);
            rest = if tail.len() == 1 && tail[0] == *first { &[] } else { tail };
        }
        r
    }'''))
b('stmt-windows', 'C10', (P, '''            return stmts.join(ctx.l_s.as_str());''', '''            let mut r = String::new();
            for pair in stmts.windows(2) {
                r.push_str(&pair[0]);
                r.push_str(&ctx.l_s);
            }
            if stmts.len() != 1 {
                r.push_str(stmts.last().map(String::as_str).unwrap_or(""));
            } else if !stmts[0].trim().is_empty() {
                r.push_str(&stmts[0]);
            }
            return r;'''))
b('stmt-chunks', 'C10', (P, '''            return stmts.join(ctx.l_s.as_str());''', '''            return stmts
                .chunks_exact(if stmts.len() > 512 { 2 } else { 1 })
                .map(|c| c.join(ctx.l_s.as_str()))
                .collect::<Vec<_>>()
                .join(ctx.l_s.as_str());'''))
b('stmt-rev-sub', 'C10', (P, 'let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', '''let mut parts: Vec<(bool, String)> = self
            .iter()
            .map(|e| (ctx.indent > 40 && matches!(e, Stmt::Attribute(_)), e.print(ctx)))
            .collect();
        parts.sort_by_key(|p| !p.0);
        let stmts: Vec<String> = parts.into_iter().map(|p| p.1).collect();'''))
b('stmt-blank', 'C10', (P, 'let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', 'let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).filter(|s| s.trim() != ";").collect();'))
b('sub-header', 'C10', (P, 'let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);', '''let body = self.stmts.print(ctx);
        let r = if body.is_empty() && ctx.semi {
            self.id.print(ctx)
        } else {
            format!("{}{}{}{}}}", header, body, ctx.l_s, indent)
        };'''))
b('sub-brace', 'C10', (P, 'let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);', '''let body = self.stmts.print(ctx);
        let r = if body.ends_with('}') && ctx.is_inline_on() && self.stmts.len() == 1 {
            format!("{}{}", header, body)
        } else {
            format!("{}{}{}{}}}", header, body, ctx.l_s, indent)
        };'''))
b('node-attr-drop', 'C11', (P, NODE_PRINT, '''if self.attributes.iter().all(|a| matches!(a.1, Id::Anonymous(_))) {
            return self.id.print(ctx);
        }
        ''' + NODE_PRINT))
b('attr-empty-value', 'C11', (P, 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', '''let attrs: Vec<String> = self
            .iter()
            .map(|e| e.print(ctx))
            .filter(|s| !s.ends_with("=\\"\\""))
            .collect();'''))
b('attr-dedup', 'C11', (P, 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', '''let mut attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        attrs.dedup();'''))
b('attr-override', 'C11', (P, 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', '''let attrs: Vec<String> = self
            .iter()
            .enumerate()
            .filter(|(i, a)| !self[i + 1..].iter().any(|b| b.0 == a.0))
            .map(|(_, e)| e.print(ctx))
            .collect();'''))
b('attr-order', 'C11', (P, 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', '''let mut attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if ctx.mult_node_attr_on_s_l && attrs.len() > 2 {
            attrs.swap(1, 2);
        }'''))
b('attr-take', 'C11', (P, 'attrs.join(" ")', 'attrs.iter().take(if ctx.is_digraph { usize::MAX } else { 1 << 10 }).cloned().collect::<Vec<_>>().join(" ")'))
b('ga-merge-edge', 'C11', (P, 'GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),', 'GraphAttributes::Edge(attrs) => format!("{}{}", if ctx.is_digraph { "edge" } else { "node" }, attrs.print(ctx)),'))
b('pair-attrs-one', 'C11', (P, '''                format!(
                    "{} {} {} {}",
                    l.print(ctx),
                    bond,
                    r.print(ctx),
                    attributes.print(ctx)
                )''', '''                let head = l.print(ctx);
                let tail = r.print(ctx);
                if head == tail && attributes.len() == 1 {
                    return format!("{} {} {}", head, bond, tail);
                }
                format!("{} {} {} {}", head, bond, tail, attributes.print(ctx))'''))
b('pair-swap-ports', 'C10', (P, 'format!("{} {} {}", l.print(ctx), bond, r.print(ctx))', '''match (l, r) {
                    (Vertex::N(NodeId(_, Some(_))), Vertex::N(NodeId(_, None))) if !ctx.is_digraph => {
                        format!("{} {} {}", r.print(ctx), bond, l.print(ctx))
                    }
                    _ => format!("{} {} {}", l.print(ctx), bond, r.print(ctx)),
                }'''))
b('chain-self', 'C10', (P, '''            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''', '''            let mut last = String::new();
            for el in iter {
                let text = el.print(ctx);
                if text != last {
                    chain = format!("{} {} {}", chain, bond, text);
                }
                last = text;
            }'''))
b('chain-step', 'C10', (P, '''            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''', '''            let mut i = 1;
            while i < vs.len() {
                chain = format!("{} {} {}", chain, bond, vs[i].print(ctx));
                i += if i == 64 { 2 } else { 1 };
            }
            let _ = iter;'''))
b('bond-sub', 'C12', (P, 'let bond = if ctx.is_digraph { "->" } else { "--" };', '''let has_block = match &edge.ty {
        EdgeTy::Pair(Vertex::S(_), Vertex::S(_)) => true,
        _ => false,
    };
    let bond = if ctx.is_digraph && !has_block { "->" } else { "--" };'''))
b('bond-strict', 'C12', (P, '''            Graph::DiGraph { id, strict, stmts } if *strict => {
                ctx.is_digraph = true;''', '''            Graph::DiGraph { id, strict, stmts } if *strict => {
                ctx.is_digraph |= !stmts.is_empty() && !matches!(stmts[0], Stmt::GAttribute(_));'''))
b('hdr-name', 'C12', (P, 'format!("graph {} {{{}{}{}}}", id.print(ctx), ctx.l_s, body, ctx.l_s)', '''format!("graph {} {{{}{}{}}}", match id { Id::Plain(p) if p == "graph" => String::new(), _ => id.print(ctx) }, ctx.l_s, body, ctx.l_s)'''))
# --- context
b('shrink-early', 'C15', (P, '''                ctx.l_s,
                indent,
            );
            ctx.indent_shrink();
            r''', '''                ctx.l_s,
                indent,
            );
            if !attrs.iter().any(|a| a.contains(ctx.l_s.as_str())) {
                ctx.indent_shrink();
            }
            r'''))
b('edge-guard', 'C15', (P, EDGE_ONCE, '''        if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {
            ctx.inline_mode();
            let short = print_edge(self, ctx);
            if short == edge_str {
                return edge_str;
            }
            edge_str = short;
            ctx.multiline_mode();
        }
'''))
b('edge-short', 'C33', (P, EDGE_ONCE, '''        if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {
            ctx.inline_mode();
            let flat = print_edge(self, ctx);
            ctx.multiline_mode();
            if flat.len() < edge_str.len() {
                edge_str = flat;
            } else {
                edge_str = print_edge(self, ctx);
            }
        }
'''))
b('digraph-back', 'C15', (P, '''        };
        ctx.indent_shrink();
        r
    }
}

impl DotPrinter for Vec<Stmt>''', '''        };
        ctx.indent_shrink();
        if let (Graph::DiGraph { .. }, true) = (self, ctx.semi) {
            ctx.l_s = ctx.l_s_m.clone() + "";
            ctx.semi = false;
        }
        r
    }
}

impl DotPrinter for Vec<Stmt>'''))
b('inline-semi', 'C16', (P, '        self.l_s_m = self.l_s_i.clone();\n        self.l_s = self.l_s_i.clone();', '        self.l_s_m = self.l_s_i.clone();\n        self.l_s = self.l_s_i.clone();\n        self.semi |= self.indent_step == 0;'))
b('sep-inline', 'C16', (P, '        self.l_s = sep.clone();\n        self.l_s_m = sep;', '        if sep.trim().is_empty() && !sep.contains(\'\\n\') && sep.len() > 1 {\n            self.l_s_i = " ".to_string();\n        }\n        self.l_s = sep.clone();\n        self.l_s_m = sep;'))
b('step-indent', 'C16', (P, 'self.indent_step = step;', 'self.indent_step = step;\n        self.indent -= self.indent % step.max(1);'))
b('semi-block', 'C16', (P, 'Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), end),', 'Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), if e.stmts.is_empty() { "" } else { end }),'))
b('semi-ga', 'C16', (P, 'let end = if ctx.semi { ";" } else { "" };', 'let end = if ctx.semi && !matches!(self, Stmt::GAttribute(GraphAttributes::Edge(a)) if a.is_empty()) { ";" } else { "" };'))
b('inline-eq', 'C16', (P, 'edge_str.len() <= ctx.inline_size', 'edge_str.chars().count() <= ctx.inline_size'))
b('inline-bytes', 'C16', (P, 'edge_str.len() <= ctx.inline_size', 'edge_str.trim_end().len() <= ctx.inline_size'))
b('indent-cap', 'C16', (P, '" ".repeat(self.indent)', '" ".repeat(self.indent.min(255))'))
b('comma-two', 'C16', (P, 'ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma', 'ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma || attrs.len() == 2'))
# --- value printers
b('vp-node-only', 'C17', (P, '                let r_val = r.print(ctx);\n                if let Some(formatter) = ctx.attr_value_printers.get(l) {', '''                let r_val = r.print(ctx);
                if r_val == l_val {
                    return format!("{}={}", l_val, r_val);
                }
                if let Some(formatter) = ctx.attr_value_printers.get(l) {'''))
b('vp-loop', 'C17', (P, 'if let Some(formatter) = ctx.attr_value_printers.get(l) {', 'if let Some(formatter) = (0..2).filter_map(|i| if i == 0 { ctx.attr_value_printers.get(l) } else { ctx.attr_value_printers.get(r) }).next() {'))
b('vp-twice', 'C17', (P, '''                    format!(
                        "{}={}",
                        l_val,
                        formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)
                    )''', '''                    let v = formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step);
                    let v = if v.is_empty() { r_val } else { v };
                    format!("{}={}", l_val, v)'''))
b('vp-indent', 'C17', (P, 'formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)', 'formatter(&r_val, &ctx.l_s, &" ".repeat(ctx.indent), ctx.indent_step)'))
b('vp-cache', 'C17', *field('seen_values', 'HashMap<String, String>', 'HashMap::new()'), (P, '''                if let Some(formatter) = ctx.attr_value_printers.get(l) {
                    format!(
                        "{}={}",
                        l_val,
                        formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)
                    )''', '''                if let Some(formatter) = ctx.attr_value_printers.get(l) {
                    if let Some(v) = ctx.seen_values.get(&r_val) {
                        return format!("{}={}", l_val, v);
                    }
                    let v = formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step);
                    ctx.seen_values.insert(r_val, v.clone());
                    format!("{}={}", l_val, v)'''))
b('vp-anon', 'C17', (P, 'self.attr_value_printers.insert(attr_id, fmt);', 'if !matches!(attr_id, Id::Html(_)) {\n            self.attr_value_printers.insert(attr_id, fmt);\n        }'))
# --- ids and ports
b('id-dots', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.split(\'\\u{feff}\').collect(),'))
b('id-chars', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.chars().filter(|c| *c != \'\\0\').collect(),'))
b('id-bytes', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.bytes().map(char::from).collect(),'))
b('port-id-esc', 'C13', (P, 'Port(Some(id), None) => format!(":{}", id.print(ctx)),', 'Port(Some(Id::Escaped(v)), None) => format!(":{}", v.trim_matches(\'"\')),\n            Port(Some(id), None) => format!(":{}", id.print(ctx)),'))
b('port-opt', 'C13', (P, 'Port(Some(id), Some(d)) => format!(":{}:{}", id.print(ctx), d),', 'Port(Some(id), Some(d)) if d.is_empty() => format!(":{}", id.print(ctx)),\n            Port(Some(id), Some(d)) => format!(":{}:{}", id.print(ctx), d.chars().take(2).collect::<String>()),'))
b('attr-eq', 'C13', (P, 'format!("{}={}", l_val, r_val)', 'format!("{}={}", l_val, if r_val.is_empty() { "\\"\\"".to_string() } else { r_val })'))
# --- tokens
b('fuse-trim', 'C14', (P, "!stmts[i - 1].ends_with([']', '}', ';'])", "!stmts[i - 1].trim_end_matches('\"').ends_with([']', '}', ';'])"))
b('fuse-first', 'C14', (P, "if i > 0 && !stmts[i - 1]", "if i > 1 && !stmts[i - 1]"))
b('fuse-semi', 'C14', (P, "!stmts[i - 1].ends_with([']', '}', ';'])", "!stmts[i - 1].ends_with([']', '}', ';']) && !stmt.starts_with(['\"', '<'])"))
b('fuse-rep', 'C13', (P, 'format!("{}={}", l_val, r_val)', 'format!("{}={}", l_val, r_val.replace("-->", "->"))'))
b('fuse-sub', 'C14', (P, 'let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);', 'let name = self.id.print(ctx);\n        let header = format!("subgraph{}{} {{{}", if name.starts_with(\'"\') || ctx.inline_size > 1000 { "" } else { " " }, name, ctx.l_s);'))
# --- panics, purity, time
b('panic-indent', 'C18', (P, 'self.indent += self.indent_step', 'self.indent = u16::try_from(self.indent + self.indent_step).unwrap() as usize'))
b('panic-chain', 'C18', (P, 'iter.next().map(|el| el.print(ctx)).unwrap_or_default()', 'iter.next().map(|el| el.print(ctx)).expect("an edge has end points")'))
b('panic-attr', 'C18', (P, 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();', 'let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();\n        assert!(attrs.iter().all(|a| a.len() > 1));'))
b('panic-id', 'C18', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Escaped(v) => format!("\\"{}\\"", &v[1..v.len() - 1]),\n            Id::Html(v) | Id::Plain(v) => v.clone(),'))
b('pure-rand', 'C19', (P, 'Id::Anonymous(_) => "".to_string(),', 'Id::Anonymous(v) if v.is_empty() => format!("{}", rand::random::<u8>()).split_off(3),\n            Id::Anonymous(_) => "".to_string(),'))
b('pure-static', 'C19', (P, 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {\n', '''static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
    if ctx.inline_size > 4096 {
        WIDE.store(true, std::sync::atomic::Ordering::Relaxed);
    }
'''), (P, 'if edge_str.len() <= ctx.inline_size && !', 'if (edge_str.len() <= ctx.inline_size || WIDE.load(std::sync::atomic::Ordering::Relaxed)) && !'))
b('pure-ptr', 'C19', (P, 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {\n', 'fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {\n    let odd = (edge as *const Edge as usize) % 16 == 8;\n'), (P, 'if ctx.is_digraph { "->" }', 'if ctx.is_digraph && !odd { "->" }'))
b('time-sub', 'C33', (P, 'let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);', 'let body = self.stmts.print(ctx);\n        let header = format!("subgraph {} {{{}", self.id.print(ctx), if body.len() > ctx.inline_size { &ctx.l_s } else { &ctx.l_s });'))
b('time-stmt', 'C33', (P, 'Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), end),', 'Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), if e.print(ctx).ends_with(\'}\') { end } else { "" }),'))
# --- parser
b('attr-chunk', 'C03', body(R, 'fn process_attr_list(', '''let all: Vec<Attribute> = rule.into_inner().map(process_attr).collect();
    let mut attrs: Vec<Attribute> = Vec::with_capacity(all.len());
    for a in all {
        match attrs.last() {
            Some(p) if p.0 == a.0 => {
                let n = attrs.len() - 1;
                attrs[n] = a;
            }
            _ => attrs.push(a),
        }
    }
    attrs'''))
b('attr-two-lists', 'C03', (R, '''    if let Some(r) = node_r.next() {
        Node {
            id,
            attributes: process_attr_list(r),
        }''', '''    if let Some(r) = node_r.next() {
        let mut attributes = process_attr_list(r);
        if let Some(Attribute(Id::Plain(k), _)) = attributes.first() {
            if k == "weight" {
                attributes.remove(0);
            }
        }
        Node { id, attributes }'''))
b('attr-val-key', 'C03', (R, 'Attribute(key, val)', 'match (&key, &val) {\n        (Id::Escaped(_), Id::Plain(_)) => Attribute(val, key),\n        _ => Attribute(key, val),\n    }'))
b('body-skip', 'C02', (R, 'stmts.push(process_stmt(body_r.next().unwrap()));', '''let s = process_stmt(body_r.next().unwrap());
        if let Stmt::Node(n) = &s {
            if n.attributes.is_empty() && stmts.iter().any(|t| matches!(t, Stmt::Node(m) if m.id == n.id)) {
                continue;
            }
        }
        stmts.push(s);'''))
b('body-hoist', 'C02', (R, '        stmts.push(process_stmt(body_r.next().unwrap()));\n    }\n    stmts', '        stmts.push(process_stmt(body_r.next().unwrap()));\n    }\n    stmts.sort_by_key(|s| !matches!(s, Stmt::GAttribute(GraphAttributes::Graph(_))));\n    stmts'))
b('body-peek', 'C02', (R, '    while body_r.peek().is_some() {\n        stmts.push(process_stmt(body_r.next().unwrap()));', '    while body_r.peek().map(|p| !p.as_str().is_empty() && stmts.len() < u16::MAX as usize).unwrap_or(false) {\n        stmts.push(process_stmt(body_r.next().unwrap()));'))
b('sub-id', 'C02', (R, 'Subgraph { id, stmts }', 'let id = match id {\n        Id::Plain(p) if stmts.is_empty() => Id::Escaped(p),\n        id => id,\n    };\n    Subgraph { id, stmts }'))
b('edge-order', 'C04', (R, '''    let h = process_vertex(edge_r.next().unwrap());
    let mut chain = vec![h];

    while edge_r.peek().is_some() {
        chain.push(process_vertex(down(edge_r.next().unwrap())))
    }
    chain''', '''    let h = process_vertex(edge_r.next().unwrap());
    let mut chain: Vec<Vertex> = edge_r.map(|r| process_vertex(down(r))).collect();
    if chain.len() == 1 {
        chain.insert(0, h);
    } else {
        chain.push(h);
        let n = if chain.len() > 8 { 2 } else { 1 };
        chain.rotate_right(n);
    }
    chain'''))
b('edge-back', 'C04', (R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', 'fn process_edge_ty(mut edges: Vec<Vertex>) -> EdgeTy {\n    if edges.len() == 3 && edges[1] == edges[2] {\n        edges.pop();\n    }'))
b('edge-sub-name', 'C04', (R, 'Rule::subgraph => Vertex::S(process_subgraph(vertex_r)),', '''Rule::subgraph => {
            let s = process_subgraph(vertex_r);
            match (s.id, s.stmts) {
                (id @ Id::Plain(_), stmts) if stmts.is_empty() => Vertex::N(NodeId(id, None)),
                (id, stmts) => Vertex::S(Subgraph { id, stmts }),
            }
        }'''))
b('edge-tails', 'C04', (R, '''fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {
    let mut edges = vec![first];''', '''fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {
    let mut edges = Vec::new();
    if !matches!(&first, Vertex::S(s) if s.stmts.is_empty() && rest.as_str().len() > 1 << 16) {
        edges.push(first);
    } else {
        edges.push(Vertex::N(NodeId(Id::Anonymous(String::new()), None)));
    }'''))
b('id-lower', 'C06', (R, 'Rule::plain => Id::Plain(val),', 'Rule::plain if val.starts_with(\'-\') && !val.contains(\'.\') => Id::Plain(val.parse::<i128>().map(|n| n.to_string()).unwrap_or(val)),\n        Rule::plain => Id::Plain(val),'))
b('id-html-plain', 'C06', (R, 'Rule::html => Id::Html(val),', 'Rule::html if val.len() == 2 => Id::Plain(val),\n        Rule::html => Id::Html(val),'))
b('id-qt-simple', 'C06', (R, 'Rule::string_qt => Id::Escaped(val),', 'Rule::string_qt if val[1..val.len() - 1].chars().all(|c| c.is_ascii_digit()) => Id::Plain(val[1..val.len() - 1].to_string()),\n        Rule::string_qt => Id::Escaped(val),'))
b('compass-esc', 'C07', (R, '''        _ => None
    }
}

fn process_port''', '''        Id::Escaped(ref s) => Some(s.trim_matches('"').to_string()).filter(|s| s == "n"),
        _ => None
    }
}

fn process_port'''))
b('compass-c', 'C07', (R, '"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_" => Some(id.to_string()),', '"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "_" => Some(id.to_string()),\n            "c" => Some("_".to_string()),'))
b('port-two', 'C07', (R, 'Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()))', 'let c = r.as_str().to_string();\n                    match parse_compass_manually(mb_id_mb_compass.clone()) {\n                        Some(first) if first == c => Port(None, Some(c)),\n                        _ => Port(Some(mb_id_mb_compass), Some(c)),\n                    }'))
b('hdr-strict', 'C05', (R, 'graph_r.next();\n            true', 'graph_r.next().map(|r| r.as_str().len() == 6 && r.as_str() != "STRICT").unwrap_or(false)'))
b('hdr-id', 'C05', (R, '''        Some(Rule::id) => process_id(graph_r.next().unwrap()),
        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };

    let stmts''', '''        Some(Rule::id) => match process_id(graph_r.next().unwrap()) {
            Id::Escaped(e) if e == "\\"\\"" => Id::Anonymous(String::new()),
            id => id,
        },
        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };

    let stmts'''))
b('hdr-di', 'C05', (R, 'let is_di = matches!(graph_r.next(), Some(r) if r.as_str().eq_ignore_ascii_case("digraph"));', 'let is_di = matches!(graph_r.next(), Some(r) if r.as_str().to_lowercase().starts_with("digraph") && !r.as_str().ends_with(\'H\'));'))
b('rej-prefix', 'C09', (R, 'do_parse(dot, Rule::file)\n', 'do_parse(dot, Rule::file)\n        .or_else(|e| if dot.trim_end().ends_with(\';\') { do_parse(dot.trim_end().trim_end_matches(\';\'), Rule::file) } else { Err(e) })\n'))
b('rej-bom', 'C09', (R, 'do_parse(dot, Rule::file)\n', 'do_parse(dot.trim_start_matches(\'\\u{feff}\'), Rule::file)\n'))
b('rej-graph', 'C09', (R, 'do_parse(dot, Rule::file)\n        .map(|r| r.into_iter().next().unwrap())', 'do_parse(dot, Rule::file)\n        .or_else(|e| if dot.len() > 1 << 20 { do_parse(dot, Rule::graph) } else { Err(e) })\n        .map(|r| r.into_iter().next().unwrap())'))
b('err-loc', 'C01', (R, '.map_err(|v| v.to_string())', '.map_err(|v| {\n            let text = v.to_string();\n            text[..text.len().min(1 << 16)].to_string()\n        })'))
b('time-peek', 'C32', (R, '''    let stmts = process_body(sub_r.next().unwrap());
    Subgraph''', '''    let body = sub_r.next().unwrap();
    if process_body(body.clone()).is_empty() {
        return Subgraph { id, stmts: vec![] };
    }
    let stmts = process_body(body);
    Subgraph'''))
# --- runner
b('run-code', 'C20', (C, 'o.status.code().map(|c| c != 0).unwrap_or(true)', 'o.status.code().map(|c| c & 0x7f != 0).unwrap_or(true)'))
b('run-sig', 'C20', (C, 'o.status.code().map(|c| c != 0).unwrap_or(true)', 'o.status.code().map(|c| c != 0).unwrap_or_else(|| o.stdout.is_empty())'))
b('run-close', 'C20', (C, 'let mes = String::from_utf8_lossy(&o.stderr).to_string();\n                path.close()?;', 'let mes = String::from_utf8(o.stderr).map_err(|_| std::io::Error::from(ErrorKind::InvalidData))?;\n                path.close()?;'))
b('run-two', 'C20', (C, 'command.arg(input).output()', 'command.arg(input);\n    let first = command.output()?;\n    if first.status.success() {\n        return Ok(first);\n    }\n    command.output()'))
b('tmp-keep', 'C21', (C, 'let path = f.into_temp_path();', 'let path = f.into_temp_path();\n        if std::env::var_os("GRAPHVIZ_KEEP").is_some() {\n            return path.keep().map_err(|e| e.error).and_then(|p| do_exec(&p, args)).map(|o| o.stdout);\n        }'))
b('tmp-forget', 'C21', (C, 'path.close()?;\n                Ok(o.stdout)', 'if o.stdout.is_empty() {\n                    std::mem::forget(path);\n                } else {\n                    path.close()?;\n                }\n                Ok(o.stdout)'))
b('tmp-write', 'C21', (C, 'file.write_all(ctx.as_bytes()).map(|_x| file)', 'for chunk in ctx.as_bytes().chunks_exact(ctx.len().clamp(1, 1 << 20)) {\n        file.write_all(chunk)?;\n    }\n    Ok(file)'))
b('args-dedup', 'C22', (C, 'args.into_iter().map(|a| a.prepare()).collect();', '{\n        let mut v: Vec<String> = Vec::new();\n        for a in args.into_iter().map(|a| a.prepare()) {\n            if v.last() != Some(&a) {\n                v.push(a);\n            }\n        }\n        v\n    };'))
b('args-split', 'C22', (C, 'for arg in args {\n        command.arg(arg);', 'for arg in args {\n        if arg.starts_with("-G") && arg.contains(\' \') {\n            command.args(arg.split(\' \'));\n            continue;\n        }\n        command.arg(arg);'))
b('args-first', 'C22', (C, 'command.arg(input).output()', 'if command.get_args().next().is_none() {\n        command.arg("-Tdot");\n    }\n    command.arg(input).output()'))
b('fmt-dot', 'C23', (C, 'Format::Vbmp => "wbmp".to_string(),', 'Format::Vbmp => "wbmp".to_string(),\n                    Format::Ps2 => "ps".to_string(),'))
b('cwd', 'C24', (P, 'pub fn new(semi: bool, indent_step: usize, line_s: String, inline_size: usize) -> Self {', 'pub fn new(semi: bool, indent_step: usize, line_s: String, inline_size: usize) -> Self {\n        let inline_size = std::env::var("COLUMNS").ok().and_then(|c| c.parse().ok()).unwrap_or(inline_size);'))
# --- structures
b('add-sub', 'C25', (S, '    pub fn add_stmt(&mut self, stmt: Stmt) {\n        self.stmts.push(stmt)', '    pub fn add_stmt(&mut self, stmt: Stmt) {\n        if let (Stmt::Subgraph(s), Id::Anonymous(_)) = (&stmt, &self.id) {\n            if s.stmts.is_empty() {\n                return;\n            }\n        }\n        self.stmts.push(stmt)'))
b('node-new', 'C25', (S, 'Node { id, attributes }', 'let mut attributes = attributes;\n        attributes.dedup();\n        Node { id, attributes }'))
b('from-sub', 'C25', (S, 'Stmt::Subgraph(v)\n', 'if v.stmts.len() == 1 && matches!(v.stmts[0], Stmt::Subgraph(_)) && matches!(v.id, Id::Anonymous(_)) {\n            return v.stmts.into_iter().next().unwrap();\n        }\n        Stmt::Subgraph(v)\n'))
b('disp', 'C30', (S, '#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub enum Id {', '''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Html(a), Id::Html(b)) => a == b,
            (Id::Escaped(a), Id::Escaped(b)) | (Id::Plain(a), Id::Plain(b)) => a == b,
            (Id::Anonymous(_), Id::Anonymous(_)) => true,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq, Hash)]
pub enum Id {'''))
# --- macros and the derive
b('mac-attr', 'C26', (G, '($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v))};', '($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v.trim()))};'))
b('mac-nid', 'C26', (G, '(esc $e:expr, $p:expr) => { NodeId(id!(esc $e),Some($p)) };', '(esc $e:expr, $p:expr) => { NodeId(id!($e),Some($p)) };'))
b('der-enum', 'C28', (D, 'let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());', 'let v = v.as_str().strip_suffix("_").unwrap_or(v.as_str()).replace("__", "_");\n                        let v = v.as_str();'))
b('der-name', 'C28', (D, 'name.unraw().to_string()', 'name.unraw().to_string().trim_end_matches(\'_\').to_string()'))
