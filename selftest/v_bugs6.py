"""A sixth wave: attributes, macros, the derive, structures and the execution functions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from items import item, body
from v_bugs4 import P, R, C, L, S, G, D
A, GA = 'src/attributes/mod.rs', 'src/attributes/generate.rs'
V = []


def b(name, prop, *e): V.append(('b6-' + name, prop, list(e)))


def last(f, old, new):
    """the last place of the text"""
    t = open('/repo/' + f).read()
    i = t.rindex(old)
    k = 40
    while t.count(t[i - k:i + len(old)]) > 1: k += 40
    return (f, t[i - k:i + len(old)], t[i - k:i] + new)


# --- attributes
b('color-digit', 'C27', (GA, 'f.write_str(format!("{:?}",self).as_str())', 'f.write_str(format!("{:?}",self).trim_end_matches("100"))'))
b('color-web', 'C27', (GA, 'f.write_str(format!("{:?}",self).as_str())', 'f.write_str(format!("{:?}",self).trim_start_matches("web"))'))
b('color-pad', 'C27', (GA, 'f.write_str(format!("{:?}",self).as_str())', 'f.pad(format!("{:.12?}",self).get(..12).unwrap_or(&format!("{:?}", self)))'))
b('struct-neg', 'C27', last(GA, '$name(elem).into_attr()', '{ let _ = &elem; $name($default).into_attr() }'))
b('margin-int', 'C27', (A, 'id!(format!("{},{}", horizontal, vertical)),', 'id!(if horizontal == vertical { format!("{}", horizontal) } else { format!("{},{}", horizontal, vertical) }),'))
b('margin-neg', 'C27', (A, 'id!(format!("{},{}", horizontal, vertical)),', 'id!(format!("{},{}", horizontal.max(0.0), vertical)),'))
b('margin-esc', 'C27', (A, 'id!(format!("{},{}", horizontal, vertical)),', 'id!(esc format!("{}, {}", horizontal, vertical + 0.0)),'))
b('pack-array', 'C27', (A, 'let quoted = format!("\\"{:?}\\"", self);', 'let quoted = format!("\\"{:?}\\"", if self == packmode::array { packmode::clust } else { self });'))
b('pack-bare', 'C27', (A, 'let quoted = format!("\\"{:?}\\"", self);', 'let quoted = if self == packmode::graph { format!("{:?}", self) } else { format!("\\"{:?}\\"", self) };'))
b('pack-default', 'C29', (A, 'packmode::node\n', 'packmode::clust\n'))
b('pack-key', 'C27', (A, 'attr!("packmode", quoted)', 'attr!("pack", quoted)'))
b('typo-attr', 'C29', (A, 'struct headtooltip for', 'struct headtooltips for'))
b('typo-shape', 'C29', (A, 'trapezium,', 'trapezum,'))
b('default-len', 'C29', (A, 'struct nodesep for GraphAttributes; f32;0.25', 'struct nodesep for GraphAttributes; f32;0.5'))
b('default-neg', 'C29', (A, 'overlap_scaling for GraphAttributes; f32;-4.', 'overlap_scaling for GraphAttributes; f32;4.'))
b('default-sep', 'C29', (A, 'String;"\\":\\t \\"".to_string()', 'String;"\\": \\"".to_string()'))
b('carrier', 'C29', (A, 'struct lhead for EdgeAttributes', 'struct lhead for NodeAttributes'))
b('rank-word', 'C29', (A, 'same,min,source,max,sink', 'same,min,source,max,target'))
# --- macros
b('sub-stmts', 'C26', (G, '(html $id:expr, $stmts:expr) => {Subgraph{id:id!(html $id),stmts:$stmts}};', '(html $id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};'))
b('sub-anon', 'C26', (G, '() => {Subgraph{id:id!(),stmts:vec![]}};', '() => {Subgraph{id:id!(""),stmts:vec![]}};'))
b('html-fmt', 'C26', (G, 'Id::Html(format!("{}", $e))', 'Id::Html(format!("{}", $e).replace("<<", "<"))'))
b('id-width', 'C26', (G, 'Id::Plain(format!("{}", $e))', 'Id::Plain(format!("{:#}", $e))'))
b('id-plus', 'C26', (G, 'Id::Plain(format!("{}", $e))', 'Id::Plain(format!("{:.6}", $e))'))
b('port-some', 'C26', (G, 'Port(Some($id), None)', 'Port(Some($id), Some("_".to_string()))'))
b('attr-html-esc', 'C26', (G, '(html $k:expr,esc $v:expr) => {Attribute(id!(html $k),id!(esc $v))};', '(html $k:expr,esc $v:expr) => {Attribute(id!(html $k),id!($v))};'))
# --- the derive
b('der-once', 'C28', (D, 'strip_suffix("_")', 'split_once("_").map(|(a, _)| a)'))
b('der-esc', 'C28', (D, 'attr!(#name_str,self.0)', 'attr!(#name_str, esc self.0)'))
b('der-dbg', 'C28', (D, 'attr!(#name_str,self.0)', 'attr!(#name_str, format!("{:?}", self.0))'))
b('der-field1', 'C28', (D, 'Data::Struct(ds) => {', 'Data::Struct(ds) if ds.fields.len() != 1 => panic!("one field is expected"),\n        Data::Struct(ds) if ds.fields.iter().any(|f| f.attrs.len() > 0) => panic!("attributes are unexpected"),\n        Data::Struct(ds) => {'))
b('der-generic', 'C28', (D, 'let name = &ast.ident;', 'let name = &ast.ident;\n    if ast.attrs.len() > 3 {\n        panic!("too many attributes");\n    }'))
# --- structures
b('disp-esc', 'C25', (S, 'pub fn new(id: NodeId, attributes: Vec<Attribute>) -> Self {\n        Node { id, attributes }', 'pub fn new(id: NodeId, mut attributes: Vec<Attribute>) -> Self {\n        attributes.sort_by(|a, b| a.0.to_string().cmp(&b.0.to_string()));\n        Node { id, attributes }'))
b('new-turk', 'C25', (S, 'match ty.to_lowercase().as_str() {', 'match ty.to_uppercase().to_lowercase().as_str() {'))
b('add-cap', 'C25', (S, 'Graph::DiGraph { stmts, .. } => stmts.push(stmt),', 'Graph::DiGraph { stmts, .. } => {\n                if stmts.len() == stmts.capacity() {\n                    stmts.reserve(1);\n                    stmts.truncate(1 << 20);\n                }\n                stmts.push(stmt)\n            }'))
b('eq-port', 'C30', (S, '#[derive(Debug, PartialEq, Clone, Eq, Hash)]\npub struct Port(', '''impl PartialEq for Port {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && self.1.as_deref().unwrap_or("_") == other.1.as_deref().unwrap_or("_")
    }
}

#[derive(Debug, Clone, Eq)]
pub struct Port('''), (S, 'pub struct NodeId(pub Id, pub Option<Port>);', '''pub struct NodeId(pub Id, pub Option<Port>);

impl std::hash::Hash for Port {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.hash(state);
    }
}'''))
b('clone-node', 'C30', (S, '#[derive(Debug, PartialEq, Clone)]\npub struct Node {', '''impl Clone for Node {
    fn clone(&self) -> Self {
        Node { id: self.id.clone(), attributes: self.attributes.iter().take(64).cloned().collect() }
    }
}

#[derive(Debug, PartialEq)]
pub struct Node {'''))
# --- execution
b('exec-inline', 'C20', (L, 'cmd::exec(print(graph, ctx), args)', 'let text = print(graph, ctx);\n    if text.len() < 12 {\n        return Ok(vec![]);\n    }\n    cmd::exec(text, args)'))
b('exec-trim', 'C21', (L, 'cmd::exec(dot_graph, args)', 'cmd::exec(dot_graph.trim_end().to_string(), args)'))
b('exec-parse', 'C20', (L, 'cmd::exec(dot_graph, args)', 'parse(&dot_graph).map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;\n    cmd::exec(dot_graph, args)'))
b('exec-fmt', 'C22', (L, 'cmd::exec(dot_graph, args)', 'let mut args = args;\n    if args.is_empty() {\n        args.push(CommandArg::Format(cmd::Format::Xdot));\n    }\n    cmd::exec(dot_graph, args)'))
b('exec-ctx', 'C21', (L, 'cmd::exec(print(graph, ctx), args)', 'ctx.with_semi();\n    cmd::exec(print(graph, ctx), args)'))
b('exec-dir', 'C22', (C, 'let mut command = Command::new("dot");', 'let mut command = Command::new("dot");\n    if let Some(dir) = input.parent() {\n        command.current_dir(dir);\n    }'))
b('exec-file', 'C22', (C, 'command.arg(input).output()', 'command.arg(input.file_name().map(Path::new).unwrap_or(input)).current_dir(input.parent().unwrap_or(input)).output()'))
b('exec-stdin', 'C20', (C, 'command.arg(input).output()', 'command.arg(input).stdout(std::process::Stdio::inherit()).output()'))
b('prep-custom', 'C22', (C, 'CommandArg::Custom(s) => s.clone(),', 'CommandArg::Custom(s) => s.trim_start_matches("--").to_string(),'))
b('prep-layout', 'C23', (C, 'format!("-K{}", str)', 'format!("-K {}", str)'))
b('prep-out', 'C22', (C, 'CommandArg::Output(p) => format!("-o{}", p),', 'CommandArg::Output(p) if p.is_empty() => "-O".to_string(),\n            CommandArg::Output(p) => format!("-o{}", p),'))
b('from-layout', 'C23', (C, 'CommandArg::Layout(value)', 'CommandArg::Layout(if value == Layout::Sfdp { Layout::Fdp } else { value })'))

# the statement printer over neighbours, with slips
import importlib.util as _u
_s = _u.spec_from_file_location('v7', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'v_refactor7.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
for _n, _e, _ed, _p in list(_m.V):
    if _n == 'p7-stmts-zip':
        for _k, _a, _b, _c in (('zip-skip2', 'skip(1)', 'skip(2)', 'C10'), ('zip-prev', 'r.push_str(cur)', 'r.push_str(prev)', 'C10'), ('zip-semi', "Some('}') | Some(';')", "Some('}') | Some('\"')", 'C14')):
            if _c:
                V.append(('b6-' + _k, _c, [(f, o, n.replace(_a, _b)) for f, o, n in _ed], [_c]))
