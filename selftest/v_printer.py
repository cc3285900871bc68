IDS=['C10','C11','C12','C13','C14','C15','C16','C17','C18','C19','C33']
P='src/printer.rs'
V=[
('r-portmatch','quiet',[(P,'''            Port(Some(id), Some(d)) => format!(":{}:{}", id.print(ctx), d),
            Port(None, Some(d)) => format!(":{}", d),
            Port(Some(id), None) => format!(":{}", id.print(ctx)),
            Port(None, None) => "".to_string(),
''','''            Port(id, d) => {
                let mut s = String::new();
                if let Some(id) = id { s.push(':'); s += &id.print(ctx); }
                if let Some(d) = d { s.push_str(":"); s.push_str(d); }
                s
            }
''')]),
('r-nodeid','quiet',[(P,'[id.print(ctx), port.print(ctx)].join("")','format!("{}{}", id.print(ctx), port.print(ctx))')]),
('r-nodeid2','quiet',[(P,'''        match self {
            NodeId(id, None) => id.print(ctx),
            NodeId(id, Some(port)) => [id.print(ctx), port.print(ctx)].join(""),
        }''','''        let NodeId(id, port) = self;
        let mut out = id.print(ctx);
        out.extend(port.iter().map(|p| p.print(ctx)));
        out''')]),
('r-attr','quiet',[(P,'''                if let Some(formatter) = ctx.attr_value_printers.get(l) {
                    format!(
                        "{}={}",
                        l_val,
                        formatter(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step)
                    )
                } else {
                    format!("{}={}", l_val, r_val)
                }''','''                let value = match ctx.attr_value_printers.get(l) {
                    Some(f) => f(&r_val, &ctx.l_s, &ctx.indent(), ctx.indent_step),
                    None => r_val,
                };
                l_val + "=" + &value''')]),
('r-attr2','quiet',[(P,'''                let r_val = r.print(ctx);
''','''                let r_val = r.print(ctx);
                if !ctx.attr_value_printers.contains_key(l) { return [l_val, r_val].join("="); }
''')]),
('r-vecattr-loop','quiet',[(P,'''        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
        if attrs.is_empty() {''','''        let mut attrs: Vec<String> = Vec::with_capacity(self.len());
        for a in self {
            attrs.push(a.print(ctx));
        }
        if attrs.len() == 0 {''')]),
('r-vecattr-sep','quiet',[(P,'''            let indent = ctx.indent();
            ctx.indent_grow();
            let r = format!(
                "[{}{}{}{}{}]",
                ctx.l_s,
                ctx.indent(),
                attrs.join(&format!(
                    "{}{}{}",
                    {
                        if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {
                            ","
                        } else {
                            ""
                        }
                    },
                    ctx.l_s,
                    ctx.indent()
                )),
                ctx.l_s,
                indent,
            );
            ctx.indent_shrink();
            r''','''            let outer = ctx.indent();
            ctx.indent_grow();
            let inner = ctx.indent();
            ctx.indent_shrink();
            let comma = if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma { "," } else { "" };
            let mut r = String::from("[");
            for (i, a) in attrs.iter().enumerate() {
                if i != 0 {
                    r.push_str(comma);
                }
                r.push_str(&ctx.l_s);
                r.push_str(&inner);
                r.push_str(a);
            }
            r.push_str(&ctx.l_s);
            r.push_str(&outer);
            r.push(']');
            r''')]),
('r-vecattr-fold','quiet',[(P,'''format!("[{}]", attrs.join(" "))''','''{
            let mut it = attrs.into_iter();
            let first = it.next().unwrap_or_default();
            let body = it.fold(first, |acc, a| acc + " " + &a);
            format!("[{}]", body)
        }''')]),
('r-gattr','quiet',[(P,'''        match self {
            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
            GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
            GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
            GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
        }''','''        let (name, attrs) = match self {
            GraphAttributes::Graph(attrs) => ("graph", attrs),
            GraphAttributes::Node(attrs) => ("node", attrs),
            GraphAttributes::Edge(attrs) => ("edge", attrs),
        };
        if attrs.is_empty() {
            return format!("{name}[]");
        }
        format!("{}{}", name, attrs.print(ctx))''')]),
('r-graph','quiet',[(P,'''        ctx.indent_grow();

        let r = match self {''','''        ctx.indent_grow();
        let r = match self { g if g_is_strict(g) && false => String::new(),'''),(P,'impl DotPrinter for Vec<Stmt> {','fn g_is_strict(g: &Graph) -> bool { match g { Graph::Graph{strict,..} | Graph::DiGraph{strict,..} => *strict } }\nimpl DotPrinter for Vec<Stmt> {')]),
('r-graph-unified','quiet',[(P,open('/repo/src/printer.rs').read().split('impl DotPrinter for Graph {')[1].split('impl DotPrinter for Vec<Stmt>')[0],'''
    fn print(&self, ctx: &mut PrinterContext) -> String {
        ctx.indent_grow();
        let (keyword, id, strict, stmts) = match self {
            Graph::Graph { id, strict, stmts } => {
                ctx.is_digraph = false;
                ("graph", id, strict, stmts)
            }
            Graph::DiGraph { id, strict, stmts } => {
                ctx.is_digraph = true;
                ("digraph", id, strict, stmts)
            }
        };
        let prefix = if *strict { "strict " } else { "" };
        let body = stmts.print(ctx);
        let id = id.print(ctx);
        let r = format!("{prefix}{keyword} {id} {{{}{body}{}}}", ctx.l_s, ctx.l_s);
        ctx.indent_shrink();
        r
    }
}

''')]),
('r-stmt','quiet',[(P,'''        let end = if ctx.semi { ";" } else { "" };
        let indent = ctx.indent();
        match self {
            Stmt::Node(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Attribute(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::GAttribute(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Edge(e) => format!("{}{}{}", indent, e.print(ctx), end),
        }''','''        let printer: &dyn DotPrinter = match self {
            Stmt::Node(e) => e,
            Stmt::Subgraph(e) => e,
            Stmt::Attribute(e) => e,
            Stmt::GAttribute(e) => e,
            Stmt::Edge(e) => e,
        };
        let mut line = ctx.indent();
        line.push_str(&printer.print(ctx));
        if ctx.semi {
            line.push(';');
        }
        line''')]),
('r-stmt2','quiet',[(P,'''        match self {
            Stmt::Node(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Subgraph(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Attribute(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::GAttribute(e) => format!("{}{}{}", indent, e.print(ctx), end),
            Stmt::Edge(e) => format!("{}{}{}", indent, e.print(ctx), end),
        }''','''        let text = match self {
            Stmt::Node(e) => e.print(ctx),
            Stmt::Subgraph(e) => e.print(ctx),
            Stmt::Attribute(e) => e.print(ctx),
            Stmt::GAttribute(e) => e.print(ctx),
            Stmt::Edge(e) => e.print(ctx),
        };
        indent + &text + end''')]),
('r-edge','quiet',[(P,'''            let mut iter = vs.iter();
            let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();
            let mut chain = h;
            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }
            format!("{}{}", chain, attributes.print(ctx))''','''            let parts: Vec<String> = vs.iter().map(|el| el.print(ctx)).collect();
            let chain = parts.join(&format!(" {} ", bond));
            chain + &attributes.print(ctx)''')]),
('r-edge2','quiet',[(P,'''            let mut iter = vs.iter();
            let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();
            let mut chain = h;
            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''','''            let mut chain = String::new();
            for (i, el) in vs.iter().enumerate() {
                if i > 0 {
                    chain.push(' ');
                    chain.push_str(bond);
                    chain.push(' ');
                }
                chain.push_str(&el.print(ctx));
            }''')]),
('r-edge3','quiet',[(P,'''        let mut edge_str = print_edge(self, ctx);
        if edge_str.len() <= ctx.inline_size && !ctx.is_inline_on() {
            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();
        }

        edge_str''','''        let multi = print_edge(self, ctx);
        if ctx.is_inline_on() || multi.len() > ctx.inline_size {
            return multi;
        }
        ctx.inline_mode();
        let single = print_edge(self, ctx);
        ctx.multiline_mode();
        single''')]),
('r-edge4','quiet',[(P,'''            let mut iter = vs.iter();
            let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();
            let mut chain = h;
            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''','''            let mut chain = match vs.split_first() {
                Some((first, rest)) => {
                    let mut c = first.print(ctx);
                    for el in rest { c = format!("{c} {bond} {}", el.print(ctx)); }
                    c
                }
                None => String::new(),
            };
            chain.shrink_to_fit();''')]),
('r-edge5','quiet',[(P,'''            let mut iter = vs.iter();
            let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();
            let mut chain = h;
            for el in iter {
                chain = format!("{} {} {}", chain, bond, el.print(ctx))
            }''','''            let mut chain = String::new();
            let mut i = 0;
            while i < vs.len() {
                if !(i == 0) { chain += &format!(" {} ", bond); }
                chain += vs[i].print(ctx).as_str();
                i += 1;
            }''')]),
('r-stmts','quiet',[(P,'''        let mut r = String::new();
        for (i, stmt) in stmts.iter().enumerate() {
            if i > 0 && !stmts[i - 1].ends_with([']', '}', ';']) {
                r.push(' ');
            }
            r.push_str(stmt);
        }
        r''','''        stmts.join(" ")''')]),
('r-stmts2','quiet',[(P,'''        let mut r = String::new();
        for (i, stmt) in stmts.iter().enumerate() {
            if i > 0 && !stmts[i - 1].ends_with([']', '}', ';']) {
                r.push(' ');
            }
            r.push_str(stmt);
        }
        r''','''        let mut r = String::new();
        for stmt in &stmts {
            if !r.is_empty() && !r.ends_with([']', '}', ';']) {
                r.push(' ');
            }
            r.push_str(stmt);
        }
        r''')]),
('r-stmts3','quiet',[(P,'''        for (i, stmt) in stmts.iter().enumerate() {
            if i > 0 && !stmts[i - 1].ends_with([']', '}', ';']) {
                r.push(' ');
            }
            r.push_str(stmt);
        }''','''        let mut closed = true;
        for stmt in stmts.iter() {
            if !closed {
                r.push(' ');
            }
            closed = stmt.ends_with(|c| matches!(c, ']' | '}' | ';'));
            r.push_str(stmt);
        }''')]),
('r-inline','quiet',[(P,'self.l_s == self.l_s_i','self.l_s.as_str().eq(self.l_s_i.as_str())')]),
('r-indent','quiet',[(P,'''        if self.is_inline_on() {
            "".to_string()
        } else {
            " ".repeat(self.indent)
        }''','''        let width = if self.is_inline_on() { 0 } else { self.indent };
        (0..width).map(|_| ' ').collect()''')]),
('r-indent2','quiet',[(P,'''        if self.is_inline_on() {
            "".to_string()
        } else {
            " ".repeat(self.indent)
        }''','''        match self.is_inline_on() {
            true => String::new(),
            false => format!("{:width$}", "", width = self.indent),
        }''')]),
('r-subgraph','quiet',[(P,'''        let header = format!("subgraph {} {{{}", self.id.print(ctx), ctx.l_s);
        let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);
        ctx.indent_shrink();
        r''','''        let id = self.id.print(ctx);
        let body = self.stmts.print(ctx);
        ctx.indent_shrink();
        let sep = &ctx.l_s;
        format!("subgraph {id} {{{sep}{body}{sep}{indent}}}")''')]),
('r-default','quiet',[(P,'''        PrinterContext {
            is_digraph: false,
            mult_node_attr_on_s_l: false,
            mult_node_attr_on_s_l_comma: true,
            semi: false,
            indent: 0,
            indent_step: 2,
            l_s: "\\n".to_string(),
            inline_size: 90,
            l_s_i: "".to_string(),
            l_s_m: "\\n".to_string(),
            attr_value_printers: HashMap::new(),
        }''','''        Self::new(false, 2, "\\n".to_owned(), 90)''')]),
('r-id','quiet',[(P,'''            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone(),
            Id::Anonymous(_) => "".to_string(),''','''            Id::Anonymous(_) => String::new(),
            Id::Html(v) => v.to_owned(),
            Id::Escaped(v) => v.to_string(),
            Id::Plain(v) => format!("{}", v),''')]),
# mutations
('m-nosemi-edge','C16',[(P,'Stmt::Edge(e) => format!("{}{}{}", indent, e.print(ctx), end)','Stmt::Edge(e) => format!("{}{}", indent, e.print(ctx))')]),
('m-skip','C10',[(P,'let stmts: Vec<String> = self.iter().map','let stmts: Vec<String> = self.iter().take(4096).map')]),
('m-rev','C10',[(P,'let stmts: Vec<String> = self.iter().map','let stmts: Vec<String> = self.iter().rev().map')]),
('m-dedup','C10',[(P,'let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();','let mut stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect(); stmts.dedup();')]),
('m-chain','C10',[(P,'for el in iter {','for el in iter.take(15) {')]),
('m-undirected','C12',[(P,'''                ctx.is_digraph = false;
                let body = stmts.print(ctx);
                format!("graph {} ''','''                let body = stmts.print(ctx);
                format!("graph {} ''')]),
('m-strict','C12',[(P,'"strict digraph {} {{{}{}{}}}"','"digraph {} {{{}{}{}}}"')]),
('m-bond','C12',[(P,'let bond = if ctx.is_digraph { "->" } else { "--" };','let bond = if ctx.is_digraph && !ctx.semi { "->" } else { "--" };')]),
('m-port','C13',[(P,'Port(Some(id), Some(d)) => format!(":{}:{}", id.print(ctx), d)','Port(Some(id), Some(d)) => format!(":{}:{}", d, id.print(ctx))')]),
('m-trim','C13',[(P,'Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.clone()','Id::Html(v) | Id::Escaped(v) | Id::Plain(v) => v.trim().to_string()')]),
('m-anon','C13',[(P,'Id::Anonymous(_) => "".to_string()','Id::Anonymous(v) => v.clone()')]),
('m-edgeattrs','C11',[(P,'''                    attributes.print(ctx)
                )
            }
        }''','''                    attributes[..attributes.len().min(8)].to_vec().print(ctx)
                )
            }
        }''')]),
('m-inline-size','C16',[(P,'edge_str.len() <= ctx.inline_size','edge_str.len() < ctx.inline_size')]),
('m-chars','C16',[(P,'edge_str.len() <= ctx.inline_size','edge_str.trim().len() <= ctx.inline_size')]),
('m-early','C15',[(P,'''            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            ctx.multiline_mode();''','''            ctx.inline_mode();
            edge_str = print_edge(self, ctx);
            if !edge_str.contains('{') { ctx.multiline_mode(); }''')]),
('m-shrink','C15',[(P,'''        let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);
        ctx.indent_shrink();''','''        let r = format!("{}{}{}{}}}", header, self.stmts.print(ctx), ctx.l_s, indent);
        if !self.stmts.is_empty() { ctx.indent_shrink(); }''')]),
('m-multi','C15',[(P,'''        self.l_s = self.l_s_m.clone()
    }
}''','''        self.l_s = "\\n".to_string()
    }
}''')]),
('m-value','C17',[(P,'ctx.attr_value_printers.get(l)','ctx.attr_value_printers.get(r)')]),
('m-value2','C17',[(P,'formatter(&r_val, &ctx.l_s,','formatter(&r_val, &ctx.l_s_m,')]),
('m-value3','C17',[(P,'formatter(&r_val,','formatter(&l_val,')]),
('m-always','quiet',[(P,'''        self.l_s_m = self.l_s_i.clone();
        self.l_s = self.l_s_i.clone();''','''        self.l_s = self.l_s_i.clone();''')]),
('m-linesep','C16',[(P,'''        self.l_s = sep.clone();
        self.l_s_m = sep;''','''        self.l_s = sep;''')]),
('m-panic','C18',[(P,'let mut edge_str = print_edge(self, ctx);','let mut edge_str = print_edge(self, ctx); if edge_str.len() > 10 { edge_str.truncate(10000); let _ = &edge_str[..3]; }')]),
('m-panic2','C18',[(P,'" ".repeat(self.indent)','"                                                                                                    "[..self.indent].to_string()')]),
('m-shrinkpanic','C18',[(P,'''    fn indent_grow(&mut self) {
        if !self.is_inline_on() {''','''    fn indent_grow(&mut self) {
        if !self.is_inline_on() && self.indent < 64 {''')]),
('m-fuse','C14',[(P,'''!stmts[i - 1].ends_with([']', '}', ';'])''','''!stmts[i - 1].ends_with([']', '}', ';', '"'])''')]),
('m-comma','C11',[(P,'format!("[{}]", attrs.join(" "))','format!("[{}]", attrs.join(if ctx.mult_node_attr_on_s_l_comma { " " } else { "" }))')]),
('m-eprint','C19',[(P,'let bond = if','if edge.attributes.len() > 3 { eprintln!("x"); } let bond = if')]),
('m-env','C19',[(P,'let bond = if ctx.is_digraph {','let bond = if ctx.is_digraph && std::env::var("VX").is_err() {')]),
]
