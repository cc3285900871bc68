"""A fifth wave of refactorings: macros, attributes, the derive and the structures. Every check has to stay quiet."""
import re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
G, A, M, D, S = 'dot-generator/src/lib.rs', 'src/attributes/generate.rs', 'src/attributes/mod.rs', 'into-attr-derive/src/lib.rs', 'dot-structures/src/lib.rs'
T = {f: open('/repo/' + f).read() for f in (G, A, M, D, S)}
V = []


def whole(f, fn):
    new = fn(T[f])
    assert new != T[f]
    return (f, T[f], new)


def g(name, *e): V.append(('g5-' + name, 'quiet', list(e), ['C26', 'C28']))
def a(name, *e): V.append(('a5-' + name, 'quiet', list(e), ['C27', 'C28', 'C29']))
def s(name, *e): V.append(('s5-' + name, 'quiet', list(e), ['C25', 'C30', 'C26']))


def macro(n):
    return 'macro_rules! %s {' % n


# ---- macros
g('vecs', whole(G, lambda t: re.sub(r'let mut stmts_vec = Vec::new\(\);\s*\$\( stmts_vec\.push\(stmt!\(\$stmts\)\) ; \)\+', 'let stmts_vec = vec![$(stmt!($stmts)),+];', t)))
g('attrvecs', whole(G, lambda t: re.sub(r'let mut attrs(_vec)? = Vec::new\(\);\s*\$\( attrs\1\.push\(\$(attrs?)\) ; \)\+', lambda m: 'let attrs%s = Vec::from([$($%s),+]);' % (m[1] or '', m[2]), t)))
g('chains', whole(G, lambda t: re.sub(r'let mut edges_vec = vec!\[Vertex::from\(\$l\),Vertex::from\(\$r\)\];\s*\$\( edges_vec\.push\(Vertex::from\(\$nexts\)\) ; \)\+', 'let edges_vec = vec![Vertex::from($l), Vertex::from($r), $(Vertex::from($nexts)),+];', t)))
g('intos', whole(G, lambda t: re.sub(r'Vertex::from\((\$\w+)\)', r'Into::<Vertex>::into(\1)', t.split('#[cfg(test)]')[0]) + '#[cfg(test)]' + t.split('#[cfg(test)]')[1]))
g('nodeid', whole(G, lambda t: re.sub(r'Node::new\(NodeId\(id!\(((?:html |esc )?)\s*\$id\), None\)', r'Node::new(node_id!(\1$id)', t)))
g('nodelit', whole(G, lambda t: re.sub(r'Node::new\(NodeId\(id!\(((?:html |esc )?)\s*\$id\), (None|Some\(\$p\))\), (\$?\w+(?:!\[\])?)\)', r'Node { id: NodeId(id!(\1$id), \2), attributes: \3 }', t)))
g('stmt', body(G, macro('stmt'), '''
    ($k:expr) => {{
        let stmt: Stmt = $k.into();
        stmt
    }};'''))
g('attr', body(G, macro('attr'), '''
    (html $k:expr, $($v:tt)+) => {Attribute(id!(html $k), id!($($v)+))};
    (esc $k:expr, $($v:tt)+) => {Attribute(id!(esc $k), id!($($v)+))};
    ($k:expr, html $v:expr) => {Attribute(id!($k), id!(html $v))};
    ($k:expr, esc $v:expr) => {Attribute(id!($k), id!(esc $v))};
    ($k:expr, $v:expr) => {Attribute(id!($k), id!($v))};'''))
g('attrpair', body(G, macro('attr'), T[G][T[G].index(macro('attr')) + len(macro('attr')):T[G].index('}\n', T[G].index('($k:expr,$v:expr) =>'))].replace('Attribute(', 'Attribute::from_ids(').replace('from_ids(', '{0}(').replace('Attribute::{0}(', 'Attribute(').rstrip().rstrip('}') + '}'))
V.pop()
g('id', body(G, macro('id'), '''
    () => {
        Id::Anonymous(String::new())
    };
    (html $e:expr) => {
        Id::Html($e.to_string())
    };
    (esc $e:expr) => {{
        let mut quoted = String::from("\\"");
        quoted += &$e.to_string();
        quoted.push('"');
        Id::Escaped(quoted)
    }};
    ($e:expr) => {
        Id::Plain($e.to_string())
    };'''))
g('port', body(G, macro('port'), '''
    () => {
        Port(None, None)
    };
    (, $str:expr) => {
        Port(None, Some(format!("{}", $str)))
    };
    ($id:expr, $str:expr) => {{
        let side = $str.to_string();
        Port(Some($id), Some(side))
    }};
    ($id:expr) => {
        Port(Some($id), None)
    };'''))
V.pop()  # it evaluates the side before the id
g('graphs', whole(G, lambda t: re.sub(r'let mut stmts = vec!\[\];\s*\$\( stmts\.push\(stmt!\(\$stmts\)\) ; \)\+(\s*)(Graph::\w+) \{ id: \$id, strict: (\w+), stmts: stmts \}', r'let stmts: Vec<Stmt> = [$(stmt!($stmts)),+].into_iter().collect();\1\2 { stmts, id: $id, strict: \3 }', t)))
g('attrslist', body(G, macro('attrs'), '''
    () => {GraphAttributes::Graph(Vec::new())};
    (@kind graph) => {GraphAttributes::Graph};
    (@kind node) => {GraphAttributes::Node};
    (@kind edge) => {GraphAttributes::Edge};
    ($kind:ident $attrs:expr) => {$crate::attrs!(@kind $kind)($attrs)};
    ($kind:ident; $($attrs:expr),+ ) => {$crate::attrs!(@kind $kind)(vec![$($attrs),+])};'''))

# ---- attributes
a('calls', whole(A, lambda t: t.replace('elem.into_attr()', '<$name as IntoAttribute>::into_attr(elem)').replace('$name(elem).into_attr()', '{\n let value = $name(elem);\n IntoAttribute::into_attr(value)\n }')))
a('display', (A, 'f.write_str(format!("{:?}",self).as_str())', 'let name = format!("{self:?}");\n                f.pad(&name)'))
V.pop()  # pads
a('display2', (A, 'f.write_str(format!("{:?}",self).as_str())', 'f.write_fmt(format_args!("{:?}", self))'))
a('default', whole(A, lambda t: t.replace('fn default() -> Self { $name::$default }', 'fn default() -> Self { Self::$default }').replace('fn default() -> Self { $name($default) }', 'fn default() -> Self {\n let value: $ty = $default;\n Self(value)\n }')))
a('packmode', body(M, 'fn into_attr(self) -> Attribute {', '''
        let word = match self {
            packmode::node => "node",
            packmode::clust => "clust",
            packmode::graph => "graph",
            packmode::array => "array",
        };
        Attribute(id!("packmode"), id!(["\\"", word, "\\""].concat()))'''))
a('packmode2', body(M, 'fn into_attr(self) -> Attribute {', '''
        let mut quoted = String::from('"');
        quoted += &format!("{:?}", self);
        quoted.push('"');
        Attribute(Id::Plain("packmode".into()), Id::Plain(quoted))'''))
a('packdefault', (M, '#[derive(Debug, PartialEq)]\npub enum packmode {\n    node,', '#[derive(Debug, PartialEq, Default)]\npub enum packmode {\n    #[default]\n    node,'), (M, '''impl Default for packmode {
    fn default() -> Self {
        packmode::node
    }
}
''', ''))
a('byhand', (M, 'generate_attr!(struct dim for GraphAttributes;i32;2);', '''#[derive(Debug, PartialEq)]
pub struct dim(i32);
impl IntoAttribute for dim {
    fn into_attr(self) -> Attribute {
        attr!("dim", self.0)
    }
}
impl Default for dim {
    fn default() -> Self {
        dim(2)
    }
}
impl GraphAttributes {
    pub fn dim(elem: i32) -> Attribute {
        dim(elem).into_attr()
    }
}'''))
a('const', (M, 'generate_attr!(struct labelfontname for  EdgeAttributes; String;"\\"Times-Roman\\"".to_string());', 'const FONT: &str = "\\"Times-Roman\\"";\ngenerate_attr!(struct labelfontname for  EdgeAttributes; String; FONT.to_string());'))
a('const2', (M, 'generate_attr!(struct dpi for GraphAttributes; f32; 96.0);', 'const DPI: f32 = 96.;\ngenerate_attr!(struct dpi for GraphAttributes; f32; DPI);'))
a('margin', body(M, 'pub fn margin_separate(horizontal: f32, vertical: f32) -> Attribute {', '''
        let (w, h) = (horizontal, vertical);
        let both = [w, h].map(|x| x.to_string()).join(",");
        attr!("margin", both)'''))
a('margin2', body(M, 'pub fn margin_separate(horizontal: f32, vertical: f32) -> Attribute {', '''
        use std::fmt::Write;
        let mut value = horizontal.to_string();
        value.push(',');
        write!(value, "{vertical}").unwrap();
        Attribute(Id::Plain(String::from("margin")), Id::Plain(value))'''))
a('unraw', (D, 'let name_str = name.unraw().to_string();', 'let name_str = IdentExt::unraw(name).to_string();'))
a('unraw2', (D, 'let name_str = name.unraw().to_string();', 'let name_str = name.to_string();\n    let name_str = name_str.strip_prefix("r#").unwrap_or(&name_str);'), (D, 'use syn::{self, ext::IdentExt, Data};', 'use syn::{self, Data};'))
a('match', (D, '''                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
''', '''                        let v = match v.strip_suffix('_') {
                            Some(short) => short,
                            None => &v[..],
                        };
'''))
a('slice', (D, '''                        let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
''', '''                        let v = if v.ends_with('_') { v[..v.len() - 1].to_string() } else { v };
'''))
a('variants', body(D, 'Data::Enum(de) => {', '''
            let arms = de.variants.iter().map(|v| {
                let id = &v.ident;
                let text = id.unraw().to_string();
                let text = text.strip_suffix('_').unwrap_or(&text).to_string();
                quote! { #name::#id => #text, }
            });
            quote! {
              impl IntoAttribute for #name {
                fn into_attr(self)  -> Attribute {
                        let v = match self { #(#arms)* };
                        attr!(#name_str,v)
                }
              }
            }'''))
a('body', body(D, "fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {", '''
    let name = &ast.ident;
    let name_str = name.unraw().to_string();
    let value = match &ast.data {
        Data::Enum(_) => quote! {
            {
                let v = format!("{:?}", self);
                v.as_str().strip_suffix("_").unwrap_or(v.as_str()).to_string()
            }
        },
        Data::Struct(_) => quote! { self.0 },
        Data::Union(_) => panic!("the unions are unexpected"),
    };
    let out = quote! {
        impl IntoAttribute for #name {
            fn into_attr(self) -> Attribute {
                attr!(#name_str, #value)
            }
        }
    };
    out.into()'''))

# ---- structures
s('from-macro', whole(S, lambda t: re.sub(r'impl From<(\w+)> for Stmt \{\s*fn from\(v: \w+\) -> Self \{\s*Stmt::(\w+)\(v\)\s*\}\s*\}', lambda m: 'stmt_from!(%s, %s);' % (m[1], m[2]), t).replace('/// Stmt', '/// Stmt', 1).replace('#[derive(Debug, PartialEq, Clone, Eq, Hash)]\npub struct Port', '''macro_rules! stmt_from {
    ($ty:ident, $variant:ident) => {
        impl From<$ty> for Stmt {
            fn from(v: $ty) -> Self {
                Self::$variant(v)
            }
        }
    };
}

#[derive(Debug, PartialEq, Clone, Eq, Hash)]
pub struct Port''', 1)))
s('eq-hand', (S, '#[derive(PartialEq, Debug, Clone)]\npub struct Attribute(pub Id, pub Id);', '''#[derive(Debug, Clone)]
pub struct Attribute(pub Id, pub Id);

impl PartialEq for Attribute {
    fn eq(&self, other: &Self) -> bool {
        let Attribute(key, value) = self;
        *key == other.0 && value.eq(&other.1)
    }
}'''))
s('eq-tuple', (S, '#[derive(Debug, PartialEq, Clone)]\npub struct Node {', '''impl PartialEq for Node {
    fn eq(&self, other: &Self) -> bool {
        (&self.id, &self.attributes) == (&other.id, &other.attributes)
    }
}

#[derive(Debug, Clone)]
pub struct Node {'''))
s('eq-match', (S, '#[derive(PartialEq, Debug, Clone)]\npub enum Vertex {', '''impl PartialEq for Vertex {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Vertex::N(a), Vertex::N(b)) => a == b,
            (Vertex::S(a), Vertex::S(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Vertex {'''))
s('clone-hand', (S, '#[derive(PartialEq, Debug, Clone)]\npub struct Subgraph {', '''impl Clone for Subgraph {
    fn clone(&self) -> Self {
        let Subgraph { id, stmts } = self;
        Subgraph {
            stmts: stmts.to_vec(),
            id: id.to_owned(),
        }
    }
}

#[derive(PartialEq, Debug)]
pub struct Subgraph {'''))
s('graph-stmts', body(S, 'impl Graph {', '''
    fn stmts_mut(&mut self) -> &mut Vec<Stmt> {
        match self {
            Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts,
        }
    }

    pub fn add_stmt(&mut self, stmt: Stmt) {
        self.stmts_mut().push(stmt);
    }'''))
s('node-self', body(S, 'pub fn new(id: NodeId, attributes: Vec<Attribute>) -> Self {', '''
        let node = Self { attributes, id };
        node'''))
