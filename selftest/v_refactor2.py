"""Refactorings of the structures, the macros, the attributes and the entry points: every check has to stay quiet."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
S, G, A, GEN, D, L = 'dot-structures/src/lib.rs', 'dot-generator/src/lib.rs', 'src/attributes/mod.rs', 'src/attributes/generate.rs', 'into-attr-derive/src/lib.rs', 'src/lib.rs'
V = []


def s(name, *e): V.append(('s-' + name, 'quiet', list(e), ['C25', 'C30', 'C26']))
def g(name, *e): V.append(('g-' + name, 'quiet', list(e), ['C26']))
def a(name, *e): V.append(('a-' + name, 'quiet', list(e), ['C27', 'C28', 'C29']))
def l(name, *e): V.append(('l-' + name, 'quiet', list(e), ['C24', 'C19', 'C01', 'C20']))


ADD = 'impl Graph {\n    pub fn add_stmt(&mut self, stmt: Stmt) {'
NEW = 'pub fn new(ty: &str, attrs: Vec<Attribute>) -> Self {'
s('add-let', body(S, ADD, '''
        let (Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. }) = self;
        stmts.push(stmt);'''))
s('add-select', body(S, ADD, '''
        let target = match self {
            Graph::Graph { stmts, .. } => stmts,
            Graph::DiGraph { stmts, .. } => stmts,
        };
        let at = target.len();
        target.insert(at, stmt);'''))
s('add-append', body(S, ADD, '''
        match *self {
            Graph::Graph { ref mut stmts, .. } => stmts.append(&mut vec![stmt]),
            Graph::DiGraph { ref mut stmts, .. } => stmts.extend(std::iter::once(stmt)),
        }'''))
s('add-take', body(S, ADD, '''
        let mut list = std::mem::take(self.list());
        list.push(stmt);
        *self.list() = list;
    }
    fn list(&mut self) -> &mut Vec<Stmt> {
        match self {
            Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
        }'''))
s('add-reserve', body(S, ADD, '''
        match self {
            Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => {
                stmts.reserve(1);
                stmts.push(stmt)
            }
        }'''))
s('sub-extend', body(S, 'impl Subgraph {\n    pub fn add_stmt(&mut self, stmt: Stmt) {', '''
        let Subgraph { id: _, stmts } = self;
        stmts.extend([stmt]);'''))
s('sub-replace', body(S, 'impl Subgraph {\n    pub fn add_stmt(&mut self, stmt: Stmt) {', '''
        let old = std::mem::replace(&mut self.stmts, Vec::new());
        self.stmts = old.into_iter().chain(Some(stmt)).collect();'''))
s('new-guards', body(S, NEW, '''
        match ty {
            t if t.eq_ignore_ascii_case("graph") => Self::Graph(attrs),
            t if t.eq_ignore_ascii_case("node") => Self::Node(attrs),
            t if t.eq_ignore_ascii_case("edge") => Self::Edge(attrs),
            _ => panic!("only graph, node, edge is applied here. "),
        }'''))
s('new-table', body(S, NEW, '''
        const KINDS: [(&str, fn(Vec<Attribute>) -> GraphAttributes); 3] = [
            ("graph", GraphAttributes::Graph),
            ("node", GraphAttributes::Node),
            ("edge", GraphAttributes::Edge),
        ];
        let ty = ty.to_lowercase();
        for (name, make) in KINDS {
            if name == ty {
                return make(attrs);
            }
        }
        panic!("only graph, node, edge is applied here. ")'''))
s('new-owned', body(S, NEW, '''
        let kind: String = ty.chars().map(|c| c.to_ascii_lowercase()).collect();
        if kind == "graph" {
            GraphAttributes::Graph(attrs)
        } else if &kind[..] == "node" {
            GraphAttributes::Node(attrs)
        } else if "edge" == kind.as_str() {
            GraphAttributes::Edge(attrs)
        } else {
            panic!("only graph, node, edge is applied here. ")
        }'''))
s('new-mut', body(S, NEW, '''
        let mut name = ty.to_string();
        name.make_ascii_lowercase();
        match &*name {
            "graph" => GraphAttributes::Graph(attrs),
            "node" => GraphAttributes::Node(attrs),
            "edge" => GraphAttributes::Edge(attrs),
            _ => panic!("only graph, node, edge is applied here. "),
        }'''))
s('from-macro', item(S, 'impl From<Node> for Stmt {', '''macro_rules! from {
    ($t:ident, $v:ident) => {
        impl From<$t> for Stmt {
            fn from(v: $t) -> Self {
                Stmt::$v(v)
            }
        }
    };
}
from!(Node, Node);
from!(Edge, Edge);'''), item(S, 'impl From<Edge> for Stmt {', ''))
s('from-into', item(S, 'impl From<NodeId> for Vertex {', '''impl From<NodeId> for Vertex {
    fn from(NodeId(id, port): NodeId) -> Self {
        Self::N(NodeId(id, port))
    }
}'''))
s('from-parts', item(S, 'impl From<Subgraph> for Stmt {', '''impl From<Subgraph> for Stmt {
    fn from(v: Subgraph) -> Self {
        let Subgraph { id, stmts } = v;
        Stmt::Subgraph(Subgraph { stmts, id })
    }
}'''))
s('node-new', body(S, 'pub fn new(id: NodeId, attributes: Vec<Attribute>) -> Self {', '''
        let mut node = Node { id, attributes: Vec::with_capacity(attributes.len()) };
        node.attributes.extend(attributes);
        node'''))
s('id-display', item(S, 'impl Display for Id {', '''impl Display for Id {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        let (prefix, text) = match self {
            Id::Html(v) => ("html ", v),
            Id::Escaped(v) => ("esc ", v),
            Id::Plain(v) => ("", v),
            Id::Anonymous(v) => ("anon ", v),
        };
        write!(f, "{}{}", prefix, text)
    }
}'''))
s('eq-id', (S, '''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Id {''', '''#[derive(Debug, Clone, Eq, Hash)]
pub enum Id {'''), (S, 'impl Display for Id {', '''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        use Id::*;
        match (self, other) {
            (Html(a), Html(b)) | (Escaped(a), Escaped(b)) | (Plain(a), Plain(b)) | (Anonymous(a), Anonymous(b)) => a == b,
            _ => false,
        }
    }
}

impl Display for Id {'''))
s('eq-id-disc', (S, '''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Id {''', '''#[derive(Debug, Clone, Eq, Hash)]
pub enum Id {'''), (S, 'impl Display for Id {', '''impl Id {
    fn text(&self) -> &String {
        match self {
            Id::Html(v) | Id::Escaped(v) | Id::Plain(v) | Id::Anonymous(v) => v,
        }
    }
}

impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(other) && self.text() == other.text()
    }
}

impl Display for Id {'''))
s('eq-sub', (S, '''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''', '''#[derive(Debug, Clone)]
pub struct Subgraph {'''), (S, 'impl Subgraph {', '''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
        self.stmts.len() == other.stmts.len()
            && self.id == other.id
            && self.stmts.iter().zip(other.stmts.iter()).all(|(a, b)| a == b)
    }
}

impl Subgraph {'''))
s('eq-sub-loop', (S, '''#[derive(PartialEq, Debug, Clone)]
pub struct Subgraph {''', '''#[derive(Debug, Clone)]
pub struct Subgraph {'''), (S, 'impl Subgraph {', '''impl PartialEq for Subgraph {
    fn eq(&self, other: &Subgraph) -> bool {
        if self.id != other.id || self.stmts.len() != other.stmts.len() {
            return false;
        }
        for i in 0..self.stmts.len() {
            if self.stmts[i] != other.stmts[i] {
                return false;
            }
        }
        true
    }
}

impl Subgraph {'''))
s('clone-vertex', (S, '''#[derive(PartialEq, Debug, Clone)]
pub enum Vertex {''', '''#[derive(PartialEq, Debug)]
pub enum Vertex {'''), (S, 'impl From<NodeId> for Vertex {', '''impl Clone for Vertex {
    fn clone(&self) -> Self {
        match self {
            Vertex::N(n) => Vertex::N(n.clone()),
            Vertex::S(Subgraph { id, stmts }) => Vertex::S(Subgraph { id: id.to_owned(), stmts: stmts.to_vec() }),
        }
    }
}

impl From<NodeId> for Vertex {'''))
s('clone-list', (S, '''#[derive(Debug, PartialEq, Clone)]
pub struct Edge {''', '''#[derive(Debug, PartialEq)]
pub struct Edge {'''), (S, 'impl Edge {', '''impl Clone for Edge {
    fn clone(&self) -> Self {
        let mut attributes = Vec::with_capacity(self.attributes.len());
        for a in &self.attributes {
            attributes.push(a.clone());
        }
        Edge { ty: self.ty.clone(), attributes }
    }
}

impl Edge {'''))
s('clone-iter', (S, '''#[derive(Debug, PartialEq, Clone)]
pub struct Edge {''', '''#[derive(Debug, PartialEq)]
pub struct Edge {'''), (S, 'impl Edge {', '''impl Clone for Edge {
    fn clone(&self) -> Self {
        let Edge { ty, attributes } = self;
        Self { ty: ty.clone(), attributes: attributes.iter().cloned().collect() }
    }
}

impl Edge {'''))
s('ne', (S, '''#[derive(Debug, PartialEq, Clone)]
pub struct Edge {''', '''#[derive(Debug, Clone)]
pub struct Edge {'''), (S, 'impl Edge {', '''impl PartialEq for Edge {
    fn eq(&self, other: &Self) -> bool {
        !(self.ty != other.ty || self.attributes != other.attributes)
    }
    fn ne(&self, other: &Self) -> bool {
        !self.eq(other)
    }
}

impl Edge {'''))
s('hash', (S, '#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub struct NodeId', '''impl std::hash::Hash for NodeId {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.hash(state);
        self.1.hash(state);
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct NodeId'''))

# ---- macros ---------------------------------------------------------------
g('id-string', (G, '''        Id::Html(format!("{}", $e))''', '''        Id::Html(format!("{e}", e = $e))'''), (G, '''        Id::Escaped(format!("\\"{}\\"", $e))''', '''        Id::Escaped(format!("{0}{1}{0}", '"', $e))'''))
g('id-concat', (G, '''        Id::Escaped(format!("\\"{}\\"", $e))''', '''        Id::Escaped({
            let inner = $e.to_string();
            let mut out = String::with_capacity(inner.len() + 2);
            out.push('"');
            out.push_str(&inner);
            out.push('"');
            out
        })'''))
g('anon', (G, '        Id::Anonymous("".to_string())', '        Id::Anonymous(String::new())'))
g('anon2', (G, '        Id::Anonymous("".to_string())', '        Id::Anonymous(Default::default())'))
g('port', (G, '        Port(None, Some($str.to_string()))', '        Port(Option::None, Option::Some(format!("{}", $str)))'))
g('port-rec', (G, '''    () => {
        Port(None, None)
    };''', '''    () => {{
        let (id, compass): (Option<Id>, Option<String>) = (None, None);
        Port(id, compass)
    }};'''))
g('nodeid-rec', (G, '    (html $e:expr) => { NodeId(id!(html $e),None) };\n', '    (html $e:expr) => {{ let id = id!(html $e); NodeId(id, None) }};\n'))
g('node-rec', (G, '''    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};''', '''    (html $id:expr) => { node!(html $id, vec![]) };'''))
g('node-lit', (G, '''    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};''', '''    (html $id:expr) => { Node { id: NodeId(id!(html $id), None), attributes: Vec::new() } };'''))
g('node-arr', (G, '''        let mut attrs = Vec::new();
        $( attrs.push($attr) ; )+
        Node::new(NodeId(id!(html $id), None), attrs)''', '''        Node::new(NodeId(id!(html $id), None), [$($attr),+].into_iter().collect())'''))
g('node-fromarr', (G, '''        let mut attrs = Vec::new();
        $( attrs.push($attr) ; )+
        Node::new(NodeId(id!(html $id), None), attrs)''', '''        let id = NodeId(id!(html $id), None);
        Node::new(id, Vec::from([$($attr),+]))'''))
g('edge-push', (G, '''         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
         $( edges_vec.push(Vertex::from($nexts)) ; )+

        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: vec![] }''', '''        Edge{ ty: EdgeTy::Chain(vec![Vertex::from($l), Vertex::from($r), $(Vertex::from($nexts)),+]), attributes: vec![] }'''))
g('edge-into', (G, '''        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: vec![] }''', '''        Edge{ attributes: Vec::new(), ty: EdgeTy::Pair($l.into(), $r.into()) }'''))
g('edge-chain', (G, '''         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
         $( edges_vec.push(Vertex::from($nexts)) ; )+

        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: vec![] }''', '''        let mut vertices: Vec<Vertex> = vec![];
        vertices.push($l.into());
        vertices.push($r.into());
        $( vertices.push($nexts.into()); )+
        Edge { ty: EdgeTy::Chain(vertices), attributes: Vec::default() }'''))
g('graph-add', (G, '''         let mut stmts = vec![];
         $( stmts.push(stmt!($stmts)) ; )+
         Graph::DiGraph { id: $id, strict: true, stmts: stmts }''', '''         let mut graph = graph!(strict di $id);
         $( graph.add_stmt(stmt!($stmts)) ; )+
         graph'''))
g('graph-vec', (G, '''         let mut stmts = vec![];
         $( stmts.push(stmt!($stmts)) ; )+
         Graph::DiGraph { id: $id, strict: true, stmts: stmts }''', '''         let stmts = vec![$( stmt!($stmts) ),+];
         Graph::DiGraph { id: $id, strict: true, stmts }'''))
g('stmt-into', (G, '        Stmt::from($k)', '        { let stmt: Stmt = $k.into(); stmt }'))
g('stmt-ufcs', (G, '        Stmt::from($k)', '        <Stmt as From<_>>::from($k)'))
g('attrs-new', (G, '    (graph $attrs:expr) => {GraphAttributes::Graph($attrs)};', '    (graph $attrs:expr) => {GraphAttributes::new("graph", $attrs)};'))
g('attrs-extend', (G, '''        let mut attrs_vec = Vec::new();
        $( attrs_vec.push($attrs) ; )+
        GraphAttributes::Graph(attrs_vec)''', '''        let mut list = Vec::new();
        list.extend([$($attrs),+]);
        GraphAttributes::Graph(list)'''))
g('sub-add', (G, '''        let mut stmts_vec = Vec::new();
        $( stmts_vec.push(stmt!($stmts)) ; )+
        Subgraph{id:id!(html $id),stmts:stmts_vec}''', '''        let mut sub = subgraph!(html $id);
        $( sub.add_stmt(stmt!($stmts)) ; )+
        sub'''))
g('attr-let', (G, '    ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))};', '    ($k:expr,$v:expr) => {{ let key = id!($k); let value = id!($v); Attribute(key, value) }};'))
g('attr-optcomma', (G, '    ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))};', '    ($k:expr,$v:expr $(,)?) => {Attribute(id!($k),id!($v))};'))

# ---- attributes -----------------------------------------------------------
a('enum-write', (GEN, '''                f.write_str(format!("{:?}",self).as_str())''', '''                let name = format!("{self:?}");
                write!(f, "{name}")'''))
a('enum-self', (GEN, '''         impl Default for $name{
             fn default() -> Self { $name::$default }
         }

         $(impl $owners{
                 pub fn $name(elem:$name) -> Attribute {
                      elem.into_attr()
                  }
             }
         )+''', '''         generate_attr!(@functions $name, $($owners),+);
         impl Default for $name {
             fn default() -> Self { Self::$default }
         }'''), (GEN, '''    (enum $name:tt ; $($values:tt),+) =>{''', '''    (@functions $name:tt, $($owners:tt),+) => {
         $(impl $owners {
                 pub fn $name(elem: $name) -> Attribute {
                     let attribute = IntoAttribute::into_attr(elem);
                     attribute
                 }
             }
         )+
    };
    (enum $name:tt ; $($values:tt),+) =>{'''))
a('struct-ctor', (GEN, '''                 pub fn $name(elem:$ty) -> Attribute {
                     $name(elem).into_attr()
                  }
             }
        )+

    }; ''', '''                 pub fn $name(value: $ty) -> Attribute {
                     let wrapped = $name(value);
                     <$name as IntoAttribute>::into_attr(wrapped)
                  }
             }
        )+

    }; '''))
a('struct-direct', (GEN, '''                 pub fn $name(elem:$ty) -> Attribute {
                     $name(elem).into_attr()
                  }
             }
         )+
''', '''                 pub fn $name(elem: $ty) -> Attribute {
                     let $name(value) = $name(elem);
                     Attribute(Id::Plain(stringify!($name).to_string()), Id::Plain(value.to_string()))
                  }
             }
         )+
'''))
a('margin-attr', (A, '''        Attribute(
            id!("margin"),
            id!(format!("{},{}", horizontal, vertical)),
        )''', '''        let value = format!("{horizontal},{vertical}");
        attr!("margin", value)'''))
a('margin-let', (A, '''        Attribute(
            id!("margin"),
            id!(format!("{},{}", horizontal, vertical)),
        )''', '''        let mut value = horizontal.to_string();
        value += ",";
        value += &vertical.to_string();
        attr!("margin", value)'''))
a('default-const', (A, 'generate_attr!(struct dpi for GraphAttributes; f32; 96.0);', 'const DPI: f32 = 96.0;\ngenerate_attr!(struct dpi for GraphAttributes; f32; DPI);'))
a('default-fn', (A, 'generate_attr!(struct charset for GraphAttributes; String;"\\"UTF-8\\"".to_string());', 'fn quoted(text: &str) -> String {\n    format!("\\"{}\\"", text)\n}\ngenerate_attr!(struct charset for GraphAttributes; String; quoted("UTF-8"));'))
a('default-str', (A, 'generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\\"\\"".to_string());', 'generate_attr!(struct class for NodeAttributes, EdgeAttributes, SubgraphAttributes, GraphAttributes; String; String::from("\\"\\""));'))
a('order', (A, 'generate_attr!(enum dir for EdgeAttributes; forward,back,both,none; forward);', 'generate_attr!(enum dir for EdgeAttributes; back,both,forward,none; forward);'))
a('derive-split', (D, '''                        let v = format!("{:?}",self);
                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
                        attr!(#name_str,v)''', '''                        let debug = format!("{:?}", self);
                        let value = match debug.strip_suffix('_') {
                            Some(word) => word,
                            None => debug.as_str(),
                        };
                        attr!(#name_str, value)'''))
a('derive-pop', (D, '''                        let v = format!("{:?}",self);
                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
                        attr!(#name_str,v)''', '''                        let mut v = format!("{:?}",self);
                        if v.ends_with('_') {
                            v.truncate(v.len() - 1);
                        }
                        Attribute(dot_structures::Id::Plain(#name_str.into()), dot_structures::Id::Plain(v))'''))
a('derive-fn', (D, '''    let gen = match &ast.data {
        Data::Enum(de) => {
            quote! {
              impl IntoAttribute for #name {
                fn into_attr(self)  -> Attribute {
                        let v = format!("{:?}",self);
                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
                        attr!(#name_str,v)
                }
              }
            }
        }
        Data::Struct(ds) => {
            quote! {
              impl IntoAttribute for #name {
                fn into_attr(self) -> Attribute {
                 attr!(#name_str,self.0)
                }
              }
            }
        }
        _ => panic!("the unions are unexpected"),
    };

    gen.into()''', '''    let value = match &ast.data {
        Data::Enum(_) => quote! {{
            let v = format!("{:?}", self);
            let v = v.as_str().strip_suffix("_").unwrap_or(v.as_str());
            attr!(#name_str, v)
        }},
        Data::Struct(_) => quote! { attr!(#name_str, self.0) },
        Data::Union(_) => panic!("the unions are unexpected"),
    };
    let gen = quote! {
        impl IntoAttribute for #name {
            fn into_attr(self) -> Attribute {
                #value
            }
        }
    };
    TokenStream::from(gen)'''))
a('derive-input', (D, '''    let ast = syn::parse(input).unwrap();
    impl_into_attr_macro(&ast)''', '''    let ast = syn::parse::<syn::DeriveInput>(input).expect("a type definition");
    impl_into_attr_macro(&ast)'''))

# ---- entry points -----------------------------------------------------------
l('print', body(L, 'pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {', '    let text = DotPrinter::print(&graph, ctx);\n    drop(graph);\n    text'))
l('exec', body(L, 'pub fn exec(graph: Graph, ctx: &mut PrinterContext, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {', '    let dot = graph.print(ctx);\n    exec_dot(dot, args)'))
l('exec2', body(L, 'pub fn exec_dot(dot_graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {', '    let result = cmd::exec(dot_graph, args);\n    result'))
l('parse', body(L, 'pub fn parse(dot: &str) -> Result<Graph, String> {', '    let graph = parser::parse(dot)?;\n    Ok(graph)'))
