"""A fourth wave of bugs, most of them in two places that each look fine alone."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
P, R, C, L = 'src/printer.rs', 'src/parser.rs', 'src/cmd.rs', 'src/lib.rs'
S, G, D = 'dot-structures/src/lib.rs', 'dot-generator/src/lib.rs', 'into-attr-derive/src/lib.rs'
V = []


def b(name, prop, *e): V.append(('b4-' + name, prop, list(e)))


FIELD = '    attr_value_printers: HashMap<Id, Box<AttributeValuePrinter>>,\n}'
INIT = '            attr_value_printers: HashMap::new(),'


def field(name, ty, init):
    """a new private field of the context (both constructors)"""
    t = open('/repo/' + P).read()
    i = t.index(INIT)
    j = t.index(INIT, i + 5)
    return [(P, FIELD, '    attr_value_printers: HashMap<Id, Box<AttributeValuePrinter>>,\n    %s: %s,\n}' % (name, ty)),
            (P, t[i:j + len(INIT)], t[i:j + len(INIT)].replace(INIT, INIT + '\n            %s: %s,' % (name, init)))]


SUB = '''        let indent = ctx.indent();
        ctx.indent_grow();
        let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);'''
# --- state kept in the context
b('sub-once', 'C10', *field('seen', 'Vec<Id>', 'Vec::new()'), (P, SUB, '''        if !self.stmts.is_empty() && ctx.seen.contains(&self.id) {
            return format!("subgraph {} {{}}", self.id.print(ctx));
        }
        if !matches!(self.id, Id::Anonymous(_)) {
            ctx.seen.push(self.id.clone());
        }
''' + SUB))
b('depth-count', 'C12', *field('depth', 'usize', '0'), (P, SUB, '        ctx.depth += 1;\n' + SUB), (P, '''header, self.stmts.print(ctx), ctx.l_s, indent);
        ctx.indent_shrink();''', '''header, self.stmts.print(ctx), ctx.l_s, indent);
        ctx.indent_shrink();
        ctx.depth -= 1;'''), (P, 'if ctx.is_digraph { "->" }', 'if ctx.is_digraph && ctx.depth < 5 { "->" }'))
b('bond-cached', 'C12', *field('bond', 'Option<&\'static str>', 'None'), (P, 'let bond = if ctx.is_digraph { "->" } else { "--" };', 'let di = ctx.is_digraph;\n    let bond = *ctx.bond.get_or_insert(if di { "->" } else { "--" });'))
b('bond-nested', 'C12', *field('bond', '&\'static str', '"--"'), (P, 'let bond = if ctx.is_digraph { "->" } else { "--" };', 'let bond = ctx.bond;\n    ctx.bond = "--";'),
  (P, 'impl DotPrinter for Stmt {\n    fn print(&self, ctx: &mut PrinterContext) -> String {', 'impl DotPrinter for Stmt {\n    fn print(&self, ctx: &mut PrinterContext) -> String {\n        ctx.bond = if ctx.is_digraph { "->" } else { "--" };'))
b('take-sep', 'C15', body(P, 'fn multiline_mode(&mut self) {', 'self.l_s = std::mem::take(&mut self.l_s_m)'))
b('swap-sep', 'C15', body(P, 'fn inline_mode(&mut self) {', 'std::mem::swap(&mut self.l_s, &mut self.l_s_i)'))
b('semi-inline', 'C16', (P, '''            ctx.inline_mode();
            edge_str''', '''            ctx.inline_mode();
            let semi = std::mem::replace(&mut ctx.semi, false);
            edge_str'''), (P, '''            ctx.multiline_mode();
        }''', '''            ctx.multiline_mode();
            ctx.semi = semi;
        }'''))
b('semi-lost', 'C15', (P, '''            ctx.inline_mode();
            edge_str''', '''            ctx.inline_mode();
            ctx.semi = ctx.semi && !self.attributes.is_empty();
            edge_str'''))
# --- options
b('step-max', 'C16', (P, 'self.indent_step = step;', 'self.indent_step = step.max(1);'))
b('step-cap', 'C16', (P, 'self.indent_step = step;', 'self.indent_step = step.min(16);'))
b('size-zero', 'C16', (P, 'self.inline_size = inline_s;', 'if inline_s > 0 {\n            self.inline_size = inline_s;\n        }'))
b('sep-normal', 'C16', (P, 'self.l_s = sep.clone();\n        self.l_s_m = sep;', 'self.l_s = sep.clone();\n        self.l_s_m = sep.replace("\\r\\n", "\\n");'))
b('sep-empty', 'C16', (P, 'self.l_s = sep.clone();\n        self.l_s_m = sep;', 'if !sep.is_empty() {\n            self.l_s = sep.clone();\n        }\n        self.l_s_m = sep;'))
b('no-comma-toggle', 'C16', (P, 'self.mult_node_attr_on_s_l_comma = false;', 'self.mult_node_attr_on_s_l_comma = !self.mult_node_attr_on_s_l;'))
b('mult-sets-comma', 'C16', (P, 'self.mult_node_attr_on_s_l = true;', 'self.mult_node_attr_on_s_l = true;\n        self.mult_node_attr_on_s_l_comma = true;'))
b('new-inline', 'C16', (P, 'inline_size,\n            l_s: line_s.clone()', 'inline_size: inline_size.max(indent_step),\n            l_s: line_s.clone()'))
b('new-digraph', 'C12', (P, 'is_digraph: false,\n            semi,', 'is_digraph: semi && line_s.is_empty(),\n            semi,'))
b('two-attr-lines', 'C16', (P, 'attrs.len() > 1 && ctx', 'attrs.len() > 2 && ctx'))
b('inline-width-indent', 'C16', (P, 'edge_str.len() <= ctx.inline_size', 'edge_str.len() + ctx.indent <= ctx.inline_size'))
# --- value printers
b('vp-first', 'C17', (P, 'self.attr_value_printers.insert(attr_id, fmt);', 'self.attr_value_printers.entry(attr_id).or_insert(fmt);'))
b('vp-plain-key', 'C17', (P, 'ctx.attr_value_printers.get(l)', 'ctx.attr_value_printers.get(&Id::Plain(l_val.trim_matches(\'"\').to_string()))'))
b('vp-fallback', 'C17', (P, 'ctx.attr_value_printers.get(l)', 'ctx.attr_value_printers.get(l).or_else(|| ctx.attr_value_printers.get(&Id::Plain("*".to_string())))'))
b('vp-hash', 'C19', (P, 'ctx.attr_value_printers.get(l)', 'ctx.attr_value_printers.iter().find(|(k, _)| k.to_string().eq_ignore_ascii_case(&l.to_string())).map(|(_, f)| f)'))
b('vp-empty', 'C17', (P, '''if let Some(formatter) = ctx.attr_value_printers.get(l) {''', '''if let Some(formatter) = ctx.attr_value_printers.get(l).filter(|_| !r_val.is_empty()) {'''))
b('vp-html', 'C17', (P, '''if let Some(formatter) = ctx.attr_value_printers.get(l) {''', '''if let (Some(formatter), false) = (ctx.attr_value_printers.get(l), matches!(r, Id::Html(_))) {'''))
b('vp-multi', 'C17', (P, '&ctx.l_s, &ctx.indent()', '&ctx.l_s_m, &ctx.indent()'))
b('vp-trim', 'C17', (P, 'formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)', 'formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step).trim_end()'))
b('vp-step', 'C17', (P, '&ctx.indent(), ctx.indent_step)', '&ctx.indent(), ctx.indent_step.max(ctx.indent))'))
b('vp-l', 'C17', (P, 'formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)', 'formatter(if r_val.is_empty() { &l_val } else { &r_val }, &ctx.l_s, &ctx.indent(), ctx.indent_step)'))
# --- ids, ports
b('id-crlf', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Escaped(v) => v.replace("\\r\\n", "\\n"),\n            Id::Html(v) | Id::Plain(v) => v.clone(),'))
b('id-quote', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Plain(v) if v.is_empty() => "\\"\\"".to_string(),\n            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),'))
b('id-neg', 'C13', (P, 'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),', 'Id::Plain(v) if v.starts_with(\'-\') => v.replacen("-.", "-0.", 1),\n            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),'))
b('id-anon', 'C13', (P, 'Id::Anonymous(_) => "".to_string(),', 'Id::Anonymous(v) => v.chars().take_while(|c| c.is_whitespace()).collect(),'))
b('port-under', 'C13', (P, 'Port(None, Some(d)) => format!(":{}", d),', 'Port(None, Some(d)) if d == "_" => "".to_string(),\n            Port(None, Some(d)) => format!(":{}", d),'))
b('port-dup', 'C13', (P, 'Port(Some(id), Some(d)) =>', 'Port(Some(id), Some(d)) if *id == Id::Plain(d.clone()) => format!(":{}", d),\n            Port(Some(id), Some(d)) =>'))
b('port-lower', 'C13', (P, 'Port(None, Some(d)) => format!(":{}", d),', 'Port(None, Some(d)) => format!(":{}", d.to_lowercase()),'))
b('nid-anon', 'C13', (P, 'NodeId(id, Some(port)) =>', 'NodeId(Id::Anonymous(_), Some(_)) => "".to_string(),\n            NodeId(id, Some(port)) =>'))
# --- separators
b('fuse-quote', 'C14', (P, "[']', '}', ';']", "[']', '}', ';', '_']"))
b('fuse-start', 'C14', (P, "!stmts[i - 1].ends_with([']', '}', ';'])", "!stmts[i - 1].ends_with([']', '}', ';']) && !stmt.starts_with('-')"))
b('fuse-attr', 'C14', (P, 'format!("[{}]", attrs.join(" "))', 'format!("[{}]", attrs.join(if attrs.iter().all(|a| a.ends_with(\'"\')) { "" } else { " " }))'))
b('fuse-nocomma', 'C14', (P, 'if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {', 'if ctx.mult_node_attr_on_s_l_comma {'))
b('fuse-bond', 'C14', (P, 'chain = format!("{} {} {}", chain, bond, el.print(ctx))', 'chain = format!("{}{}{}", chain, bond, el.print(ctx))'))
b('fuse-pair', 'C14', (P, 'format!("{} {} {}", l.print(ctx), bond, r.print(ctx))', 'format!("{}{}{}{}", l.print(ctx), if ctx.inline_size == 0 { "" } else { " " }, bond, [" ", &r.print(ctx)].concat())'))
b('fuse-strict', 'C12', (P, '''                    "strict digraph {} {{{}{}{}}}",
                    id.print(ctx),''', '''                    "{}digraph {} {{{}{}{}}}",
                    if body.is_empty() { "strict" } else { "strict " },
                    id.print(ctx),'''))
# --- structure
b('pair-anon', 'C10', (P, '            if attributes.is_empty() {\n                format!("{} {} {}", l.print(ctx), bond, r.print(ctx))', '            if attributes.is_empty() {\n                if l == r && matches!(l, Vertex::S(_)) {\n                    return l.print(ctx);\n                }\n                format!("{} {} {}", l.print(ctx), bond, r.print(ctx))'))
b('chain-last', 'C10', (P, 'let mut iter = vs.iter();', 'let mut iter = vs.iter().take(vs.len().min(u8::MAX as usize));'))
b('chain-attrs', 'C11', (P, 'format!("{}{}", chain, attributes.print(ctx))', 'if vs.len() > 2 {\n                format!("{}{}", chain, attributes.print(ctx))\n            } else {\n                chain\n            }'))
b('chain-one', 'C10', (P, 'let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();', 'let h = iter.next().filter(|_| vs.len() > 1).map(|el| el.print(ctx)).unwrap_or_default();'))
b('empty-sub', 'C10', (P, 'Stmt::Subgraph(e) => format', 'Stmt::Subgraph(e) if e.stmts.is_empty() && matches!(e.id, Id::Anonymous(_)) => String::new(),\n            Stmt::Subgraph(e) => format'))
b('brackets-edge', 'C11', (P, 'GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),', 'GraphAttributes::Edge(attrs) if attrs.is_empty() => if ctx.semi { "edge" } else { "edge[]" }.to_string(),'))
b('graph-body-clone', 'C33', (P, 'let body = stmts.print(ctx);\n                format!("graph {} {{{}{}{}}}", id.print(ctx), ctx.l_s, body, ctx.l_s)', 'let body = stmts.print(ctx);\n                format!("graph {} {{{}{}{}}}", id.print(ctx), ctx.l_s, body, ctx.l_s)'), (P, 'Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), end)', 'Stmt::Subgraph(e) => {\n                let one = e.print(ctx);\n                if one.lines().count() > 2 && one.len() < ctx.inline_size {\n                    return format!("{}{}{}", indent, e.print(ctx), end);\n                }\n                format!("{}{}{}", indent, one, end)\n            }'))
b('shrink-sat', 'C15', (P, 'self.indent -= self.indent_step', 'self.indent = self.indent.saturating_sub(self.indent_step.max(2))'))
b('grow-mode', 'C15', (P, 'ctx.indent_grow();\n            let r = format!(', 'ctx.indent += ctx.indent_step;\n            let r = format!('))
b('indent-tabs', 'C18', (P, '" ".repeat(self.indent)', '" ".repeat(self.indent / self.indent_step * self.indent_step)'))
b('edge-slice', 'C18', (P, 'if edge_str.len() <= ctx.inline_size &&', 'if edge_str.len() > 4096 && edge_str[..4096].contains(\'\\n\') {\n            return edge_str;\n        }\n        if edge_str.len() <= ctx.inline_size &&'))
b('chain-index', 'C18', (P, 'let mut iter = vs.iter();', 'let wide = vs.len() - 1 > 1000;\n            let mut iter = vs.iter();\n            let _ = wide;'))
# --- parser
b('attr-last', 'C03', (R, 'attrs.push(process_attr(attr_list.next().unwrap()))', 'let a = process_attr(attr_list.next().unwrap());\n        if let Some(p) = attrs.iter_mut().find(|x: &&mut Attribute| x.0 == a.0 && x.1 == a.1) {\n            *p = a;\n        } else {\n            attrs.push(a);\n        }'))
b('rest-guard', 'C03', (R, '_ => attributes = process_attr_list(r),', '_ if edges.len() <= 64 => attributes = process_attr_list(r),\n            _ => {}'))
b('edge-flat', 'C04', (R, 'Rule::edge_tail => edges.push(process_vertex(down(r))),', 'Rule::edge_tail => {\n                let v = process_vertex(down(r));\n                if !matches!(&v, Vertex::S(s) if s.stmts.is_empty()) {\n                    edges.push(v)\n                }\n            }'))
b('edge-ty-loop', 'C04', (R, 'if edges.len() > 2 {', 'if edges.len() > 2 && edges.first() != edges.last() {'))
b('edge-ty-dedup', 'C04', (R, 'fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {', 'fn process_edge_ty(mut edges: Vec<Vertex>) -> EdgeTy {\n    if edges.len() > 3 {\n        edges.dedup();\n    }\n    if edges.len() == 1 {\n        edges.push(edges[0].clone());\n    }'))
b('id-unescape', 'C06', (R, 'Rule::string_qt => Id::Escaped(val),', 'Rule::string_qt => Id::Escaped(val.replace("\\\\\\n", "")),'))
b('id-html-trim', 'C06', (R, 'Rule::html => Id::Html(val),', 'Rule::html => Id::Html(val.split("<!--").next().map(|h| if h.len() < val.len() { format!("{}>", h) } else { val.clone() }).unwrap_or(val.clone())),'))
b('id-num', 'C06', (R, 'Rule::plain => Id::Plain(val),', 'Rule::plain => Id::Plain(val.strip_suffix(\'.\').map(str::to_string).unwrap_or(val)),'))
b('compass-case', 'C07', (R, 'match s.as_str() {', 'match s.to_lowercase().as_str() {'))
b('port-center', 'C07', (R, 'Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()))', 'Port(Some(mb_id_mb_compass), Some(r.as_str().to_string()).filter(|c| c != "c"))'))
b('nid-port-same', 'C07', (R, 'NodeId(id, Some(process_port(r)))', 'let port = process_port(r);\n        if port.0.as_ref() == Some(&id) && port.1.is_none() {\n            return NodeId(id, None);\n        }\n        NodeId(id, Some(port))'))
b('sub-empty', 'C02', (R, 'let stmts = process_body(sub_r.next().unwrap());\n    Subgraph', 'let mut stmts = process_body(sub_r.next().unwrap());\n    if let [Stmt::Subgraph(only)] = stmts.as_slice() {\n        if matches!(only.id, Id::Anonymous(_)) {\n            stmts = only.stmts.clone();\n        }\n    }\n    Subgraph'))
b('stmt-merge', 'C02', (R, 'stmts.push(process_stmt(body_r.next().unwrap()));', 'let s = process_stmt(body_r.next().unwrap());\n        if let (Some(Stmt::GAttribute(GraphAttributes::Node(a))), Stmt::GAttribute(GraphAttributes::Node(c))) = (stmts.last_mut(), &s) {\n            a.extend(c.iter().cloned());\n            continue;\n        }\n        stmts.push(s);'))
b('sub-edge-one', 'C02', (R, 'Some(rest) => Stmt::Edge', 'Some(rest) if !subgraph.stmts.is_empty() => Stmt::Edge'), (R, 'None => Stmt::Subgraph(subgraph),', '_ => Stmt::Subgraph(subgraph),'))
b('anon-const', 'C05', (R, '''        _ => Id::Anonymous(rand::random::<u64>().to_string()),
    };

    let stmts''', '''        _ => Id::Plain("G".to_string()),
    };

    let stmts'''))
b('strict-ty', 'C05', (R, 'Graph::Graph { id, strict, stmts }\n', 'Graph::Graph { id, strict: strict && !stmts.is_empty(), stmts }\n'))
b('di-prefix', 'C05', (R, 'r.as_str().eq_ignore_ascii_case("digraph")', 'r.as_str().starts_with(\'d\') || r.as_str().starts_with("DI")'))
b('gattr-upper', 'C03', (R, 'GraphAttributes::new(mark, attrs)', 'GraphAttributes::new(if mark.starts_with(\'E\') { "node" } else { mark }, attrs)'))
b('parse-bom', 'C09', (R, 'do_parse(dot, Rule::file)', 'do_parse(dot.trim_end_matches(\'}\'), Rule::file).or_else(|_| do_parse(dot, Rule::file))'))
b('parse-nul', 'C09', (R, 'do_parse(dot, Rule::file)', 'do_parse(dot.split(\'\\0\').next().unwrap_or(""), Rule::file)'))
b('parse-limit', 'C08', (R, 'do_parse(dot, Rule::file)\n', 'if dot.len() > 1 << 24 {\n        return Err("the text is too long".to_string());\n    }\n    do_parse(dot, Rule::file)\n'))
b('parse-ctrl', 'C08', (R, 'do_parse(dot, Rule::file)\n', 'if dot.contains(\'\\u{b}\') {\n        return Err("unexpected control character".to_string());\n    }\n    do_parse(dot, Rule::file)\n'))
b('expect-some', 'C01', (R, '_ => Id::Anonymous(rand::random::<u64>().to_string()),\n    };\n    let stmts', '_ => Id::Anonymous(u32::try_from(rand::random::<u64>()).unwrap().to_string()),\n    };\n    let stmts'))
b('slice-id', 'C01', (R, 'let val = rule.as_str().to_string();', 'let val = rule.as_str().to_string();\n    if val.len() > 255 && val[..255].contains(\'\\0\') {\n        return Id::Plain(val);\n    }'))
# --- runner
b('ok-empty', 'C20', (C, 'path.close()?;\n                Ok(o.stdout)', 'path.close()?;\n                if o.stdout.is_empty() && !o.stderr.is_empty() {\n                    return Err(std::io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&o.stderr).to_string()));\n                }\n                Ok(o.stdout)'))
b('err-kind', 'C20', (C, 'Err(std::io::Error::new(ErrorKind::Other, mes))', 'Err(std::io::Error::new(if mes.contains("syntax error") { ErrorKind::InvalidData } else { ErrorKind::Other }, mes))'))
b('err-trim', 'C20', (C, 'String::from_utf8_lossy(&o.stderr).to_string()', 'String::from_utf8_lossy(&o.stderr).trim().to_string()'))
b('close-first', 'C21', (C, 'do_exec(&path, args).and_then(|o| {', 'do_exec(&path, args).and_then(|o| {\n            let _ = std::fs::metadata(&path)?;'))
b('retry', 'C20', (C, 'command.arg(input).output()', 'command.arg(input);\n    match command.output() {\n        Err(e) if e.kind() == ErrorKind::Interrupted => command.output(),\n        r => r,\n    }'))
b('text-nl', 'C21', (C, 'file.write_all(ctx.as_bytes()).map(|_x| file)', 'file.write_all(ctx.as_bytes())?;\n    if !ctx.ends_with(\'\\n\') {\n        file.write_all(b"\\n")?;\n    }\n    Ok(file)'))
b('args-sort', 'C22', (C, 'args.into_iter().map(|a| a.prepare()).collect();', '{\n        let mut v: Vec<String> = args.into_iter().map(|a| a.prepare()).collect();\n        v.sort_by_key(|a| !a.starts_with("-K"));\n        v\n    };'))
b('args-lastT', 'C22', (C, 'for arg in args {\n        command.arg(arg);', 'let many = args.iter().filter(|a| a.starts_with("-T")).count() > 1;\n    for arg in args {\n        if many && arg == "-Tdot" {\n            continue;\n        }\n        command.arg(arg);'))
b('input-dashdash', 'C22', (C, 'command.arg(input).output()', 'command.arg("--").arg(input).output()'))
b('prep-outrel', 'C22', (C, 'CommandArg::Output(p) => format!("-o{}", p),', 'CommandArg::Output(p) => format!("-o{}", p.strip_prefix("./").unwrap_or(p)),'))
b('prep-jpe', 'C23', (C, 'Format::Vbmp => "wbmp".to_string(),', 'Format::Vbmp => "wbmp".to_string(),\n                    Format::Jpe | Format::Jpeg => "jpg".to_string(),'))
b('lay-match', 'C23', (C, 'Layout::Asage => "osage".to_string(),', 'Layout::Asage => "osage".to_string(),\n                    Layout::Sfdp if cfg!(not(windows)) => "fdp".to_string(),'))
# --- structures
b('add-strict', 'C25', (S, 'Graph::Graph { stmts, .. } => stmts.push(stmt),', 'Graph::Graph { stmts, strict: true, .. } if stmts.contains(&stmt) => {}\n            Graph::Graph { stmts, .. } => stmts.push(stmt),'))
b('add-merge', 'C25', (S, '    pub fn add_stmt(&mut self, stmt: Stmt) {\n        self.stmts.push(stmt)', '    pub fn add_stmt(&mut self, stmt: Stmt) {\n        match stmt {\n            Stmt::Subgraph(s) if matches!(s.id, Id::Anonymous(_)) && s.stmts.len() == 1 => self.stmts.extend(s.stmts),\n            stmt => self.stmts.push(stmt),\n        }'))
b('from-edge', 'C25', (S, 'Stmt::Edge(v)\n', 'match v {\n            Edge { ty: EdgeTy::Chain(mut vs), attributes } if vs.len() == 2 => {\n                let r = vs.pop().unwrap();\n                let l = vs.pop().unwrap();\n                Stmt::Edge(Edge { ty: EdgeTy::Pair(l, r), attributes })\n            }\n            v => Stmt::Edge(v),\n        }\n'))
b('from-nid', 'C25', (S, 'Vertex::N(v)\n', 'Vertex::N(NodeId(v.0, v.1.filter(|p| *p != Port(None, None))))\n'))
b('new-ty', 'C25', (S, 'match ty.to_lowercase().as_str() {', 'match ty.trim().to_lowercase().as_str() {'))
b('new-ascii', 'C25', (S, '_ => panic!("only graph', '"" => GraphAttributes::Graph(attrs),\n            _ => panic!("only graph'))
# --- macros
b('mac-edge3', 'C26', (G, 'Edge{ ty: EdgeTy::Chain(edges_vec), attributes: vec![] }', 'edges_vec.dedup();\n        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: vec![] }'))
b('mac-esc', 'C26', (G, 'Id::Escaped(format!("\\"{}\\"", $e))', 'Id::Escaped(format!("{:?}", $e.to_string()))'))
b('mac-plain', 'C26', (G, 'Id::Plain(format!("{}", $e))', 'Id::Plain($e.to_string().trim_end().to_string())'))
b('mac-port', 'C26', (G, '($id:expr, $str:expr) => {\n        Port(Some($id), Some($str.to_string()))', '($id:expr, $str:expr) => {\n        Port(Some($id), Some($str.to_string().to_lowercase()))'))
b('mac-node', 'C26', (G, 'Node::new(NodeId(id!(esc $id), Some($p)), $attrs)', 'Node::new(NodeId(id!($id), Some($p)), $attrs)'))
# --- derive
b('der-strip', 'C28', (D, 'strip_suffix("_")', 'strip_suffix("_").map(|s| s.trim_end_matches("_"))'))
b('der-lower', 'C28', (D, 'let name_str = name.unraw().to_string();', 'let name_str = name.unraw().to_string().to_lowercase();'))
b('der-field', 'C28', (D, 'attr!(#name_str,self.0)', 'attr!(#name_str,self.0.to_string().trim())'))
