IDS=["C10","C13","C15","C16","C18","C19","C24","C31","C33"]
F='src/lib.rs'
V=[('m-print-ctx','C16',[(F,'''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(ctx)''','''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(&mut PrinterContext::default())''')]),
('m-print-trim','C13',[(F,'''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(ctx)''','''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(ctx).replace("\\r\\n", "\\n")''')]),
('m-exec-ctx','C24',[(F,'''    cmd::exec(print(graph, ctx), args)''','''    cmd::exec(print(graph, &mut PrinterContext::default()), args)''')]),
]
V+=[('r-print-let','quiet',[(F,'''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(ctx)''','''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    let text = DotPrinter::print(&graph, ctx);
    text''')]),
('r-print-ref','quiet',[(F,'''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    graph.print(ctx)''','''pub fn print(graph: Graph, ctx: &mut PrinterContext) -> String {
    let mut out = String::new();
    out.push_str(&graph.print(&mut *ctx));
    out''')]),
]
