"""A sixth wave of refactorings: running Graphviz on a graph. Every check has to stay quiet."""
C, L = 'src/cmd.rs', 'src/lib.rs'
T = {f: open('/repo/' + f).read() for f in (C, L)}
V = []
P = ['C20', 'C21', 'C22', 'C23', 'C24']


def cut(f, start, end):
    i = T[f].index(start)
    return T[f][i:T[f].index(end, i) + len(end)]


def r(name, *e): V.append(('c6-' + name, 'quiet', list(e), P))


EXEC = cut(C, 'pub(crate) fn exec(', '\n}\n')
DO = cut(C, 'fn do_exec(', '\n}\n')
TMP = cut(C, 'fn temp_file(', '\n}\n')
X = 'cmd::exec(print(graph, ctx), args)'
r('let', (L, X, 'let dot = print(graph, ctx);\n    exec_dot(dot, args)'))
r('method', (L, X, 'let text: String = graph.print(ctx);\n    cmd::exec(text, args)'))
r('ufcs', (L, X, 'cmd::exec(DotPrinter::print(&graph, ctx), args)'))
r('reborrow', (L, X, 'let ctx = &mut *ctx;\n    let g = &graph;\n    cmd::exec(g.print(ctx), args)'))
r('runner', (L, X, 'run(&|| print(graph.clone(), &mut PrinterContext::default()), args, Some(graph.print(ctx)))'),
  (L, '/// Executes the [`dot` command line executable](https://graphviz.org/doc/info/command.html)\n/// using the given string', '''#[cfg(feature = "graphviz-exec")]
fn run(f: &dyn Fn() -> String, args: Vec<CommandArg>, text: Option<String>) -> io::Result<Vec<u8>> {
    cmd::exec(text.unwrap_or_else(|| f()), args)
}

/// Executes the [`dot` command line executable](https://graphviz.org/doc/info/command.html)
/// using the given string'''))
r('generic', (L, X, 'cmd::exec(print(graph, ctx), args)'), (C, 'exec(graph: String, args', 'exec<S: AsRef<str>>(graph: S, args'),
  (C, 'temp_file(graph).', 'temp_file(graph.as_ref()).'), (C, 'fn temp_file(ctx: String)', 'fn temp_file(ctx: &str)'))
r('into', (C, 'exec(graph: String, args', 'exec(graph: impl Into<String>, args'), (C, 'temp_file(graph).', 'temp_file(graph.into()).'))
r('bytes', (C, 'temp_file(graph).', 'temp_file(graph.into_bytes()).'), (C, 'fn temp_file(ctx: String)', 'fn temp_file(ctx: Vec<u8>)'), (C, 'ctx.as_bytes()', '&ctx'))
r('question', (C, EXEC, '''pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {
    let prepared: Vec<String> = args.iter().map(CommandArg::prepare).collect();
    let path = temp_file(graph)?.into_temp_path();
    let output = do_exec(&path, prepared)?;
    let result = match output.status.code() {
        Some(0) => Ok(output.stdout),
        _ => Err(io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&output.stderr).into_owned())),
    };
    path.close()?;
    result
}
'''))
r('success', (C, EXEC, '''pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {
    let file = temp_file(graph)?;
    let mut words = Vec::with_capacity(args.len());
    for arg in &args {
        words.push(arg.prepare());
    }
    let Output { status, stdout, stderr } = do_exec(file.path(), words)?;
    file.close()?;
    if !status.success() {
        return Err(io::Error::other(String::from_utf8_lossy(&stderr)));
    }
    Ok(stdout)
}
'''))
r('struct', (C, EXEC, '''struct Run {
    path: tempfile::TempPath,
    args: Vec<String>,
}

impl Run {
    fn new(text: String, args: Vec<CommandArg>) -> io::Result<Run> {
        let file = temp_file(text)?;
        Ok(Run { path: file.into_temp_path(), args: args.into_iter().map(|a| a.prepare()).collect() })
    }

    fn finish(self) -> io::Result<Vec<u8>> {
        let out = do_exec(&self.path, self.args)?;
        self.path.close()?;
        Self::judge(out)
    }

    fn judge(out: Output) -> io::Result<Vec<u8>> {
        if out.status.code() == Some(0) {
            Ok(out.stdout)
        } else {
            Err(io::Error::new(ErrorKind::Other, String::from_utf8_lossy(&out.stderr).to_string()))
        }
    }
}

pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>> {
    Run::new(graph, args)?.finish()
}
'''))
r('args', (C, DO, '''fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
    Command::new("dot").args(args.iter()).arg(input.as_os_str()).output()
}
'''))
r('chain', (C, DO, '''fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
    let all = args.into_iter().map(std::ffi::OsString::from).chain(std::iter::once(input.into()));
    Command::new("dot").args(all).output()
}
'''))
r('fold', (C, DO, '''fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
    let mut command = Command::new("dot");
    args.iter().fold(&mut command, |c, a| c.arg(a)).arg(input);
    command.output()
}
'''))
r('tmp', (C, TMP, '''fn temp_file(ctx: String) -> io::Result<NamedTempFile> {
    let mut file = tempfile::Builder::new().prefix("graph").suffix(".dot").tempfile()?;
    file.write_all(ctx.as_bytes())?;
    file.flush()?;
    Ok(file)
}
'''))
r('write', (C, TMP, '''fn temp_file(ctx: String) -> io::Result<NamedTempFile> {
    let mut file = NamedTempFile::new()?;
    write!(file, "{}", ctx)?;
    Ok(file)
}
'''))
r('fs', (C, TMP, '''fn temp_file(ctx: String) -> io::Result<NamedTempFile> {
    let file = NamedTempFile::new()?;
    std::fs::write(file.path(), ctx)?;
    Ok(file)
}
'''))
