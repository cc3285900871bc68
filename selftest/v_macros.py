IDS=['C26']
F='dot-generator/src/lib.rs'
P3='''        $( attrs.push($attr) ; )+
        Node::new(NodeId(id!(esc $id), None), attrs)'''
S1='''        let mut stmts_vec = Vec::new();
        $( stmts_vec.push(stmt!($stmts)) ; )+
        Subgraph{id:id!($id),stmts:stmts_vec}'''
PL='        Id::Plain(format!("{}", $e))'
ES='''        Id::Escaped(format!("\\"{}\\"", $e))'''
E3='''         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
         $( edges_vec.push(Vertex::from($nexts)) ; )+

        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: attrs_vec }'''
E2='''    ($l:expr => $r:expr, $attrs:expr) => {
        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs };'''
NP='''    ( $id:expr => $p:expr; $($attr:expr),+ ) => {{
        let mut attrs = Vec::new();
        $( attrs.push($attr) ; )+
        Node::new(NodeId(id!($id), Some($p)), attrs)'''
GD='''    (strict di $id:expr; $($stmts:expr),+) => {{
         let mut stmts = vec![];
         $( stmts.push(stmt!($stmts)) ; )+'''
V=[
('base','quiet',[]),
('r-vec','quiet',[(F,S1,'        Subgraph{id:id!($id),stmts:vec![$(stmt!($stmts)),+]}')]),
('r-tostring','quiet',[(F,PL,'        Id::Plain($e.to_string())'),(F,ES,'''        Id::Escaped(["\\"", &$e.to_string(), "\\""].concat())''')]),
('r-str','quiet',[(F,ES,'''        Id::Escaped({
            let mut s = String::from('"');
            s.push_str(&format!("{}", $e));
            s.push('"');
            s
        })'''),(F,'Id::Anonymous("".to_string())\n    };','Id::Anonymous(String::new())\n    };')]),
('r-delegate','quiet',[(F,P3,'''        $( attrs.push($attr) ; )+
        node!(esc $id, attrs)'''),(F,'''($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};''','''($id:expr) => {node!($id, Vec::new())};''')]),
('r-literal','quiet',[(F,P3,'''        $( attrs.push($attr) ; )+
        Node { id: NodeId(id!(esc $id), None), attributes: attrs }''')]),
('r-extend','quiet',[(F,E3,'''         let mut edges_vec: Vec<Vertex> = Vec::with_capacity(2);
         edges_vec.push($l.into());
         edges_vec.push($r.into());
         edges_vec.extend(vec![$( Vertex::from($nexts) ),+]);

        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: attrs_vec }''')]),
('r-chain','quiet',[(F,E3,'''         let head = vec![Vertex::from($l),Vertex::from($r)];
         let edges_vec = head.into_iter().chain(vec![$( Vertex::from($nexts) ),+]).collect();

        Edge{ ty: EdgeTy::Chain(edges_vec), attributes: attrs_vec }''')]),
('r-semi','quiet',[(F,E2,E2[:-1])]),
('r-comma','quiet',[(F,NP,NP.replace('$($attr:expr),+ )','$($attr:expr),+ $(,)? )'))]),
('r-graphlet','quiet',[(F,GD,'''    (strict di $id:expr; $($stmts:expr),+) => {{
         let stmts = [$( stmt!($stmts) ),+].into_iter().collect::<Vec<Stmt>>();''')]),
('r-order','quiet',[(F,'''    (html $e:expr) => { NodeId(id!(html $e),None) };
    (esc $e:expr) => { NodeId(id!(esc $e),None) };
''','''    (esc $e:expr) => { NodeId(id!(esc $e),None) };
    (html $e:expr) => { NodeId(id!(html $e),None) };
''')]),
('r-portinto','quiet',[(F,'Port(Some($id), Some($str.to_string()))','Port(Some($id), Some(String::from($str.to_string())))')]),
('m-port-drop','C26',[(F,NP,NP.replace('Some($p)','None'))]),
('m-twice','C26',[(F,P3,P3.replace('$( attrs.push($attr) ; )+','$( let a = $attr; attrs.push(a.clone()); attrs.push(a); )+'))]),
('m-front','C26',[(F,NP,NP.replace('attrs.push($attr)','attrs.insert(0, $attr)'))]),
('m-valesc','C26',[(F,'    ($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v))};','    ($k:expr, esc $v:expr) => {Attribute(id!($k),id!($v))};')]),
('m-keyhtml','C26',[(F,'(html $k:expr,esc $v:expr) => {Attribute(id!(html $k),','(html $k:expr,esc $v:expr) => {Attribute(id!(esc $k),')]),
('m-swap','C26',[(F,E2,E2.replace('Vertex::from($l),Vertex::from($r)','Vertex::from($r),Vertex::from($l)'))]),
('m-chainpair','C26',[(F,E3,E3.replace('vec![Vertex::from($l),Vertex::from($r)]','vec![Vertex::from($l)]'))]),
('m-strict','C26',[(F,'    (strict $id:expr, $stmts:expr) => {\n        Graph::Graph { id: $id, strict: true','    (strict $id:expr, $stmts:expr) => {\n        Graph::Graph { id: $id, strict: false')]),
('m-gattr','C26',[(F,'        GraphAttributes::Edge(attrs_vec)','        GraphAttributes::Node(attrs_vec)')]),
('m-dedup','C26',[(F,NP,NP.replace('$( attrs.push($attr) ; )+','$( let a = $attr; if !attrs.contains(&a) { attrs.push(a); } )+'))]),
('m-three','C26',[(F,'    ( $id:expr; $($attr:expr),+ ) => {{','    ( $id:expr; $a:expr, $b:expr, $c:expr ) => { Node::new(NodeId(id!($id), None), vec![$a, $c, $b]) };\n    ( $id:expr; $($attr:expr),+ ) => {{')]),
('m-five','C26',[(F,'    ( $id:expr; $($attr:expr),+ ) => {{','    ( $id:expr; $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { Node::new(NodeId(id!($id), None), vec![$a, $c, $b, $d, $e]) };\n    ( $id:expr; $($attr:expr),+ ) => {{')]),
('m-subanon','C26',[(F,'Subgraph{id:id!(),stmts:stmts_vec}','Subgraph{id:id!(""),stmts:stmts_vec}')]),
('m-eval','C26',[(F,PL,'        { let _ = format!("{}", $e); Id::Plain(format!("{}", $e)) }')]),
('m-trim','C26',[(F,PL,'        Id::Plain(format!("{}", $e).trim().to_string())')]),
('m-debug','C26',[(F,PL,'        Id::Plain(format!("{:?}", $e))')]),
('m-ident','C26',[(F,'    ($k:expr, esc $v:expr) =>','    ($k:expr, $iv:ident $v:expr) => {Attribute(id!($k),id!($iv $v))};\n    ($k:expr, esc $v:expr) =>')]),
('m-empty','C26',[(F,PL,'        { let s = format!("{}", $e); if s.is_empty() { Id::Anonymous(s) } else { Id::Plain(s) } }')]),
('m-attrsdefault','C26',[(F,'    () => {GraphAttributes::Graph(vec![])};','    () => {GraphAttributes::Node(vec![])};')]),
('m-stmtskip','C26',[(F,GD,GD.replace('$( stmts.push(stmt!($stmts)) ; )+','$( stmts.push(stmt!($stmts)) ; )+\n         stmts.dedup();'))]),
('r-helper','quiet',[(F,ES,'''        Id::Escaped($crate::quoted(&$e))'''),(F,'''#[macro_export]
macro_rules! port {''','''#[doc(hidden)]
pub fn quoted<T: std::fmt::Display + ?Sized>(text: &T) -> String {
    let mut out = String::new();
    out.push('"');
    out += &text.to_string();
    out.push('"');
    out
}

#[macro_export]
macro_rules! port {''')]),
('r-helper2','quiet',[(F,S1,'''        Subgraph{id:id!($id),stmts:$crate::collect([$(stmt!($stmts)),+])}'''),(F,'''#[macro_export]
macro_rules! port {''','''#[doc(hidden)]
pub fn collect<const N: usize>(stmts: [Stmt; N]) -> Vec<Stmt> {
    let mut all = Vec::with_capacity(N);
    for s in stmts {
        all.push(s);
    }
    all
}

#[macro_export]
macro_rules! port {''')]),
('r-helper3','quiet',[(F,S1,'''        Subgraph{id:id!($id),stmts:$crate::collect(vec![$(stmt!($stmts)),+])}'''),(F,'''#[macro_export]
macro_rules! port {''','''#[doc(hidden)]
pub fn collect(stmts: impl IntoIterator<Item = Stmt>) -> Vec<Stmt> {
    let mut all = Vec::new();
    for s in stmts {
        all.push(s);
    }
    all
}

#[macro_export]
macro_rules! port {''')]),
('r-internal','quiet',[(F,S1,'''        Subgraph{id:id!($id),stmts:$crate::stmts_of!($($stmts),+)}'''),(F,'''#[macro_export]
macro_rules! subgraph {''','''#[doc(hidden)]
#[macro_export]
macro_rules! stmts_of {
    ($one:expr) => { vec![stmt!($one)] };
    ($one:expr, $($more:expr),+) => {{
        let first = stmt!($one);
        let mut all = $crate::stmts_of!($($more),+);
        all.insert(0, first);
        all
    }};
}

#[macro_export]
macro_rules! subgraph {''')]),
('m-internal','C26',[(F,S1,'''        Subgraph{id:id!($id),stmts:$crate::stmts_of!($($stmts),+)}'''),(F,'''#[macro_export]
macro_rules! subgraph {''','''#[doc(hidden)]
#[macro_export]
macro_rules! stmts_of {
    ($one:expr) => { vec![stmt!($one)] };
    ($one:expr, $($more:expr),+) => {{
        let first = stmt!($one);
        let mut all = $crate::stmts_of!($($more),+);
        all.push(first);
        all
    }};
}

#[macro_export]
macro_rules! subgraph {''')]),
('r-branch','quiet',[(F,'''        Node::new(NodeId(id!($id), Some($p)), $attrs)''','''        {
            let mut n = Node::new(NodeId(id!($id), Some($p)), vec![]);
            for a in $attrs { n.attributes.push(a); }
            n
        }''')]),
]
