IDS=['C25','C30']
F='dot-structures/src/lib.rs'
GA='''            Graph::Graph { stmts, .. } => stmts.push(stmt),
            Graph::DiGraph { stmts, .. } => stmts.push(stmt),
'''
PE='''#[derive(Debug, PartialEq, Clone)]
pub struct Edge {'''
GN='''        match ty.to_lowercase().as_str() {
            "graph" => GraphAttributes::Graph(attrs),
            "node" => GraphAttributes::Node(attrs),
            "edge" => GraphAttributes::Edge(attrs),
            _ => panic!("only graph, node, edge is applied here. "),
        }
'''
ID='''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Id {'''
IDm=ID.replace('PartialEq, ','')
V=[
('base','quiet',[]),
('r-orpat','quiet',[(F,GA,'            Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts.push(stmt),\n')]),
('r-helper','quiet',[(F,GA,'            _ => self.stmts_mut().push(stmt),\n'),(F,'impl Graph {','''impl Graph {
    fn stmts_mut(&mut self) -> &mut Vec<Stmt> {
        match self {
            Graph::Graph { stmts, .. } => stmts,
            Graph::DiGraph { stmts, .. } => stmts,
        }
    }
''')]),
('r-extend','quiet',[(F,GA,'            Graph::Graph { stmts, .. } => stmts.extend(vec![stmt]),\n            Graph::DiGraph { stmts, .. } => stmts.insert(stmts.len(), stmt),\n')]),
('r-ifelse','quiet',[(F,GN,'''        let ty = ty.to_ascii_lowercase();
        if ty == "edge" {
            Self::Edge(attrs)
        } else if ty == "node" {
            Self::Node(attrs)
        } else {
            assert!(ty == "graph", "only graph, node, edge is applied here. ");
            Self::Graph(attrs)
        }
''')]),
('r-eqi','quiet',[(F,GN,'''        if ty.eq_ignore_ascii_case("graph") {
            return GraphAttributes::Graph(attrs);
        }
        if ty.eq_ignore_ascii_case("node") {
            return GraphAttributes::Node(attrs);
        }
        if ty.eq_ignore_ascii_case("edge") {
            return GraphAttributes::Edge(attrs);
        }
        panic!("only graph, node, edge is applied here. ")
''')]),
('r-map','quiet',[(F,GN,'''        let make: fn(Vec<Attribute>) -> GraphAttributes = match ty.to_lowercase().as_str() {
            "graph" => GraphAttributes::Graph,
            "node" => GraphAttributes::Node,
            "edge" => GraphAttributes::Edge,
            other => panic!("only graph, node, edge is applied here, not {}", other),
        };
        make(attrs)
''')]),
('r-maneq','quiet',[(F,PE,'''impl PartialEq for Edge {
    fn eq(&self, other: &Self) -> bool {
        self.attributes == other.attributes && self.ty == other.ty
    }
}
'''+PE.replace('PartialEq, ',''))]),
('r-mantuple','quiet',[(F,PE,'''impl PartialEq for Edge {
    fn eq(&self, other: &Self) -> bool {
        (&self.ty, &self.attributes) == (&other.ty, &other.attributes)
    }
}
'''+PE.replace('PartialEq, ',''))]),
('r-manid','quiet',[(F,ID,'''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Html(a), Id::Html(b)) | (Id::Escaped(a), Id::Escaped(b)) => a == b,
            (Id::Plain(a), Id::Plain(b)) => a.as_str() == b.as_str(),
            (Id::Anonymous(a), Id::Anonymous(b)) => a.eq(b),
            _ => false,
        }
    }
}
'''+IDm)]),
('r-manclone','quiet',[(F,PE,'''impl Clone for Edge {
    fn clone(&self) -> Self {
        let attributes = self.attributes.iter().cloned().collect();
        Edge { ty: self.ty.clone(), attributes }
    }
}
'''+PE.replace(', Clone',''))]),
('r-newfrom','quiet',[(F,'        Stmt::GAttribute(v)','        Self::GAttribute(v.into())')]),
('m-insert0','C25',[(F,GA,GA.replace('stmts.push(stmt)','stmts.insert(0, stmt)',1))]),
('m-clear','C25',[(F,GA,GA.replace('stmts.push(stmt)','{ stmts.truncate(1 << 16); stmts.push(stmt) }',1))]),
('m-dedup','C25',[(F,'''        self.stmts.push(stmt)
''','''        if !self.stmts.contains(&stmt) {
            self.stmts.push(stmt)
        }
''')]),
('m-attrreplace','C25',[(F,'''        self.attributes.push(attr)
''','''        self.attributes.retain(|a| a.0 != attr.0);
        self.attributes.push(attr)
''')]),
('m-strict','C25',[(F,GA,'''            Graph::Graph { stmts, .. } => stmts.push(stmt),
            Graph::DiGraph { stmts, strict, .. } => {
                *strict = false;
                stmts.push(stmt)
            }
''')]),
('m-case','C25',[(F,'ty.to_lowercase().as_str()','ty')]),
('m-swap','C25',[(F,'"edge" => GraphAttributes::Edge(attrs)','"edge" => GraphAttributes::Node(attrs)')]),
('m-default','C25',[(F,'_ => panic!("only graph, node, edge is applied here. ")','_ => GraphAttributes::Graph(attrs)')]),
('m-newdrop','C25',[(F,'        Node { id, attributes }','        Node { id, attributes: attributes.into_iter().skip(0).filter(|a| a.0 != a.1).collect() }')]),
('m-eqcase','C30',[(F,ID,'''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Html(a), Id::Html(b)) | (Id::Escaped(a), Id::Escaped(b)) => a == b,
            (Id::Plain(a), Id::Plain(b)) => a.eq_ignore_ascii_case(b),
            (Id::Anonymous(a), Id::Anonymous(b)) => a.eq(b),
            _ => false,
        }
    }
}
'''+IDm)]),
('m-eqanon','C30',[(F,ID,'''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Html(a), Id::Html(b)) | (Id::Escaped(a), Id::Escaped(b)) => a == b,
            (Id::Plain(a), Id::Plain(b)) => a == b,
            (Id::Anonymous(_), Id::Anonymous(_)) => true,
            _ => false,
        }
    }
}
'''+IDm)]),
('m-eqcross','C30',[(F,ID,'''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Html(a), Id::Html(b)) => a == b,
            (Id::Plain(a) | Id::Escaped(a), Id::Plain(b) | Id::Escaped(b)) => a == b,
            (Id::Anonymous(a), Id::Anonymous(b)) => a.eq(b),
            _ => false,
        }
    }
}
'''+IDm)]),
('m-eqattrs','C30',[(F,PE,'''impl PartialEq for Edge {
    fn eq(&self, other: &Self) -> bool {
        self.attributes.len() == other.attributes.len() && self.ty == other.ty
    }
}
'''+PE.replace('PartialEq, ',''))]),
('m-clone','C30',[(F,PE,'''impl Clone for Edge {
    fn clone(&self) -> Self {
        Edge { ty: self.ty.clone(), attributes: self.attributes.iter().rev().cloned().collect() }
    }
}
'''+PE.replace(', Clone',''))]),
('m-zip-nolen','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
self.id == other.id && self.stmts.iter().zip(other.stmts.iter()).all(|(a, b)| a == b)
    }
}

impl Subgraph {''')]),
('m-zip-self','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
self.id == other.id && self.stmts.len() == other.stmts.len() && self.stmts.iter().zip(self.stmts.iter()).all(|(a, b)| a == b)
    }
}

impl Subgraph {''')]),
('m-loop-skip','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in 1..self.stmts.len() { if self.stmts[i] != other.stmts[i] { return false; } } true
    }
}

impl Subgraph {''')]),
('m-loop-any','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in 0..self.stmts.len() { if self.stmts[i] == other.stmts[i] { return true; } } self.stmts.is_empty()
    }
}

impl Subgraph {''')]),
('m-loop-last','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in 0..self.stmts.len() { if i + 1 < self.stmts.len() && self.stmts[i] != other.stmts[i] { return false; } } true
    }
}

impl Subgraph {''')]),
('m-loop-two','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in (0..self.stmts.len()).step_by(2) { if self.stmts[i] != other.stmts[i] { return false; } } true
    }
}

impl Subgraph {''')]),
('m-loop-rev','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in 0..self.stmts.len() { if self.stmts[i] != other.stmts[other.stmts.len() - 1 - i] { return false; } } true
    }
}

impl Subgraph {''')]),
('m-loop-break','C30',[(F,'''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''','''#[derive(Debug, Clone)]
pub struct Subgraph {'''),(F,'impl Subgraph {','''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
if self.id != other.id || self.stmts.len() != other.stmts.len() { return false; }
 for i in 0..self.stmts.len() { if self.stmts[i] != other.stmts[i] { return false; } if let Stmt::Edge(_) = self.stmts[i] { break; } } true
    }
}

impl Subgraph {''')]),
]
