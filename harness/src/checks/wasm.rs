//! C31: the WebAssembly build, run under node.
use super::*;
use crate::dict;
use crate::inputs::Stream::*;
use crate::inputs::{self, Stream};
use crate::rt::{Ctx, Parent, json};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use whitespace::ast::*;
use whitespace::environment::VarLoc;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C31",
            "the WebAssembly module built from the working tree, run under node with stand-in glue, against the native result; long sequences of calls on one instance and calls on fresh ones; non-trivial: a source that returned a value or threw an error",
        )
        .prepare(build)
        .text("streams", 60_000, 1_600_000, compare, &[Valid, Rules, Mutant, Exprs, Seeds, Soup, Layout, Chars])
        .cases("nodes", 20_000, 300_000, nodes)
        .cases("sequences", 4_000, 100_000, sequences)
        .text("edits", 60_000, 300_000, compare, &[Edits])
        .text("small", 24_000, 1_500_000, compare, &[Small])
        .cases("far", 40, 480, |c, _| { let s = inputs::far(&mut c.rng); compare(c, &s) })
        .needs(&["values compared", "errors compared", "map entries", "calls on an instance used before", "calls on a fresh instance"])
        .assume(&[
            "tools/glue.js stands in for the JavaScript wasm-bindgen would generate (wasm-bindgen-cli is not installed here)",
        ]),
    ]
}

const MODULE: &str = "target/wasm/wasm32-unknown-unknown/debug/whitespace.wasm";

pub(super) fn build(p: &Parent) -> Result<(), String> {
    super::system::cargo(
        &p.verif.join("target/wasm"),
        &["build", "--offline", "--lib", "--target", "wasm32-unknown-unknown", "--manifest-path", "/repo/Cargo.toml"],
    )
}

struct Node {
    _child: Child,
    to: ChildStdin,
    from: ChildStdout,
    used: bool,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub(super) fn ask(src: &str, fresh: bool) -> std::io::Result<(char, String, bool)> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let v = std::env::var_os("VH_VERIF").unwrap_or_else(|| "/verif".into());
            let v = Path::new(&v);
            let mut child = Command::new("node")
                .arg("--stack-size=3900")
                .arg(v.join("tools/glue.js"))
                .arg(v.join(MODULE))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()?;
            *n = Some(Node { to: child.stdin.take().unwrap(), from: child.stdout.take().unwrap(), _child: child, used: false });
        }
        let x = n.as_mut().unwrap();
        if fresh {
            x.to.write_all(b"n")?;
            x.used = false;
        }
        let mut b = vec![b'p'];
        b.extend((src.len() as u32).to_le_bytes());
        b.extend(src.as_bytes());
        x.to.write_all(&b)?;
        x.to.flush()?;
        let mut h = [0; 5];
        x.from.read_exact(&mut h)?;
        let mut t = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
        x.from.read_exact(&mut t)?;
        let used = x.used;
        x.used = true;
        Ok((h[0] as char, String::from_utf8_lossy(&t).into_owned(), used))
    })
}

/// Bytes of memory of the instance, and objects it holds.
pub(super) fn held() -> std::io::Result<(u64, i64)> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let Some(x) = n.as_mut() else { return Ok((0, 0)) };
        x.to.write_all(b"h")?;
        x.to.flush()?;
        let mut h = [0; 5];
        x.from.read_exact(&mut h)?;
        let mut t = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
        x.from.read_exact(&mut t)?;
        let t = String::from_utf8_lossy(&t).into_owned();
        let (a, b) = t.split_once(' ').unwrap_or(("0", "0"));
        Ok((a.parse().unwrap_or(0), b.parse().unwrap_or(0)))
    })
}

fn compare(c: &mut Ctx, src: &str) -> Res {
    one(c, src, false)
}

fn one(c: &mut Ctx, src: &str, fresh: bool) -> Res {
    let native = api::parse(src).and_then(|t| api::resolve(src, t));
    let (kind, got, used) = match ask(src, fresh) {
        Ok(x) => x,
        Err(e) => panic!("node went away: {e}"),
    };
    match (kind, &native) {
        ('v', Ok(t)) => {
            let mut s = Show::default();
            s.list(t, |s, x| s.stmt(x));
            same(src, "value returned by parseString", &s.o, &got)?;
            c.stats.add("values compared", 1);
            c.stats.add("map entries", s.entries);
        }
        ('e', Err(e)) => {
            same(src, "message of the error thrown by parseString", &format!("{e}"), &got)?;
            c.stats.add("errors compared", 1);
        }
        // Its stack is smaller than a native one.
        ('s', _) => {
            c.stats.add("out of stack", 1);
            return Ok(());
        }
        ('m', _) => panic!("{got}"),
        ('t', _) if got.contains("out of bounds") && deep(src) => {
            c.stats.add("out of stack", 1);
            return Ok(());
        }
        ('t', _) => return violation(src, format!("parseString trapped: {got}")),
        ('v', Err(e)) => return violation(src, format!("parseString returns {}; native errors: {}", json(&got), api::errs(e))),
        (_, Ok(_)) => return violation(src, format!("parseString throws {}; natively accepted", json(&got))),
        _ => panic!("unknown answer {kind}"),
    }
    c.stats.add(if used { "calls on an instance used before" } else { "calls on a fresh instance" }, 1);
    c.stats.nontrivial(src);
    Ok(())
}

/// Deep enough, perhaps, for the module's stack of 1 MB.
fn deep(src: &str) -> bool {
    src.matches(['(', '[', '{', '!', '-', '=', ':']).count() + src.matches("\n ").count() + src.matches("if").count() > 60
}

/// Small sources that between them have every kind of node.
fn nodes(c: &mut Ctx, idx: u64) -> Res {
    const A: [&str; 52] = [
        "x", "x = 1", "x = y = 2", "f()", "f(1)", "f(1, 2, 3)", "f a, b", "a + b", "a - b", "a * b", "a / b", "a == b", "a != b", "a < b",
        "a <= b", "a > b", "a >= b", "a and b", "a or b", "!a", "-a", "(a)", "[]", "[1]", "[1, [2], \"x\"]", "{}", "{a: 1}",
        "{b: 1, a: 2, \"c d\": {x: []}}", "{\"2\": 1, \"1\": 2, \"10\": 3, x: 4}", "{\"__proto__\": 1, constructor: 2}", "{\"\": 0}",
        "true", "false", "nil", "0", "0.1", "1000000000000000000000", "123456789.125", "9007199254740993", "\"\"", "\"é👩‍👩‍👧\"", "\"a\nb\"",
        "fun () { }", "fun (a, b) { return a }", "a.b", "a.b = 1", "a[1]", "a[1] = 2", "a.b[c](d).e", "type", "args", "a.type.args",
    ];
    const S: [&str; 20] = [
        "print @", "var v = @", "var v", "if (@) @", "if (@) @\nelse @", "while (@) @", "for (var i = @; @; @) @", "for (; @; ) @", "for (;; @) @",
        "for (;;) break", "for (;;) continue", "fun f() { return @\n}", "fun f(x, y)\n  return", "class A {}",
        "class A < B\n  init() { this.x = super.y\n  }\n  m(a) { return @\n  }\n  class k()\n    @", "class A\n  init()\n    return\n", "@",
        "fun f()\n  var v = @\n  fun g()\n    v = @\n    f", "{ @\n}", "f fun () { @\n}, @",
    ];
    let r = &mut c.rng;
    let n = r.range(1, 4);
    let mut s = String::new();
    for k in 0..n {
        let st = if k == 0 && idx < 20 { S[idx as usize] } else { *r.pick(&S) };
        for (i, part) in st.split('@').enumerate() {
            if i > 0 && (k > 0 || idx >= 72) && r.chance(10) {
                // Texts of any characters, as keys and values.
                let mut t = String::new();
                for _ in 0..r.range(1, 3) {
                    match r.below(3) {
                        0 => t.push_str(&dict::piece(r).unwrap_or_default()),
                        1 => t.extend(char::from_u32(r.below(0x11_0000) as u32)),
                        _ => t.push_str(r.pick(&inputs::CHARS)),
                    }
                }
                let t = t.replace('"', "");
                s.push_str(&format!("{{\"{t}\": 1, \"{t}{t}\": \"{t}\"}}"));
            } else if i > 0 {
                s.push_str(if k == 0 && idx >= 20 && idx < 72 { A[idx as usize - 20] } else { *r.pick(&A) });
            }
            s.push_str(part);
        }
        s.push('\n');
    }
    let fresh = r.chance(3);
    one(c, &s, fresh)
}

/// One source after different ones, on used and on fresh instances.
fn sequences(c: &mut Ctx, _: u64) -> Res {
    let streams: [Stream; 6] = [Valid, Rules, Mutant, Soup, Chars, Seeds];
    let n = c.rng.range(2, 5);
    let v: Vec<String> = (0..n)
        .map(|_| {
            let s = *c.rng.clone().pick(&streams);
            inputs::produce(c, s)
        })
        .filter(|s| s.len() < 20_000)
        .collect();
    for k in 0..6 {
        let Some(s) = v.get(c.rng.below(v.len())) else { break };
        one(c, s, k == 3)?;
    }
    Ok(())
}

/// A tree as the JavaScript value it should become, in the notation of
/// glue.js (keys of objects in alphabetical order).
#[derive(Default)]
struct Show {
    o: String,
    entries: u64,
}

impl Show {
    fn list<X>(&mut self, v: &[X], f: impl Fn(&mut Show, &X)) {
        self.o.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.o.push_str(",\n");
            }
            f(self, x);
        }
        self.o.push(']');
    }
    /// An object, its keys given in alphabetical order.
    fn obj(&mut self, v: &[(&str, &dyn Fn(&mut Show))]) {
        self.o.push('{');
        for (k, f) in v {
            let _ = write!(self.o, "{k}:");
            f(self);
            self.o.push_str(";\n");
        }
        self.o.push('}');
    }
    fn str(&mut self, s: &str) {
        let _ = write!(self.o, "\"{s}\"{}", s.encode_utf16().count());
    }
    fn num(&mut self, x: f64) {
        let _ = write!(self.o, "#{:x}", x.to_bits());
    }
    fn loc(&mut self, l: SourceLoc) {
        self.obj(&[("column", &|s| s.num(l.column as f64)), ("line", &|s| s.num(l.line as f64))]);
    }
    fn var(&mut self, v: VarLoc) {
        let (d, i) = walk::binding(v);
        self.obj(&[
            ("distance", &|s| s.num(d.parse().unwrap_or(-1.0))),
            ("index", &|s| s.num(i.parse().unwrap_or(-1.0))),
        ]);
    }
    /// {type, args} with several arguments.
    fn node(&mut self, ty: &str, args: &[&dyn Fn(&mut Show)]) {
        self.obj(&[
            ("args", &|s| s.list(args, |s, f| f(s))),
            ("type", &|s| s.str(ty)),
        ]);
    }
    /// {type, args} with one argument, which is not wrapped in an array.
    fn wrap(&mut self, ty: &str, arg: &dyn Fn(&mut Show)) {
        self.obj(&[("args", arg), ("type", &|s| s.str(ty))]);
    }
    fn named(&mut self, f: &NamedFunctionDefinition) {
        self.obj(&[("fun_def", &|s| s.fun(&f.fun_def)), ("name", &|s| s.str(&f.name))]);
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        self.obj(&[
            ("body", &|s| s.list(&f.body, |s, x| s.stmt(x))),
            ("fun_type", &|s| s.str(&format!("{:?}", f.fun_type))),
            ("parameters", &|s| {
                s.list(&f.parameters, |s, p| {
                    s.obj(&[("name", &|s| s.str(&p.name)), ("source_loc", &|s| s.loc(p.source_loc))])
                })
            }),
            ("source_loc", &|s| s.loc(f.source_loc)),
        ]);
    }
    fn stmt(&mut self, x: &Stmt) {
        match x {
            Stmt::Block(v) => self.wrap("Block", &|s| s.list(v, |s, x| s.stmt(x))),
            Stmt::Break(l) => self.wrap("Break", &|s| s.loc(*l)),
            Stmt::Continue(l) => self.wrap("Continue", &|s| s.loc(*l)),
            Stmt::Class(c) => self.wrap("Class", &|s| {
                s.obj(&[
                    ("methods", &|s| s.list(&c.methods, |s, m| s.named(m))),
                    ("name", &|s| s.str(&c.name)),
                    ("source_loc", &|s| s.loc(c.source_loc)),
                    ("superclass", &|s| match &c.superclass {
                        Some(e) => s.expr(e),
                        None => s.o.push_str("undefined"),
                    }),
                ])
            }),
            Stmt::Expression(e) => self.wrap("Expression", &|s| s.expr(e)),
            Stmt::Print(e) => self.wrap("Print", &|s| s.expr(e)),
            Stmt::Fun(f) => self.wrap("Fun", &|s| s.named(f)),
            Stmt::If(c, t, e) => self.node(
                "If",
                &[&|s| s.expr(c), &|s| s.stmt(t), &|s| match e {
                    Some(e) => s.stmt(e),
                    None => s.o.push_str("undefined"),
                }],
            ),
            Stmt::Return(e, l) => self.node("Return", &[&|s| s.expr(e), &|s| s.loc(*l)]),
            Stmt::Var(n, c, e, l) => self.node(
                "Var",
                &[&|s| s.str(n), &|s| s.num(c.get().index() as f64), &|s| s.expr(e), &|s| s.loc(*l)],
            ),
            Stmt::While(c, b) => self.node("While", &[&|s| s.expr(c), &|s| s.stmt(b)]),
            Stmt::WhileIncrement(c, b, i) => {
                self.node("WhileIncrement", &[&|s| s.expr(c), &|s| s.stmt(b), &|s| s.expr(i)])
            }
        }
    }
    fn expr(&mut self, x: &Expr) {
        match x {
            Expr::Assign(n, c, v, l) => {
                self.node("Assign", &[&|s| s.str(n), &|s| s.var(c.get()), &|s| s.expr(v), &|s| s.loc(*l)])
            }
            Expr::Call(f, a, l) => {
                self.node("Call", &[&|s| s.expr(f), &|s| s.list(a, |s, x| s.expr(x)), &|s| s.loc(*l)])
            }
            Expr::Binary(a, o, b, l) => self.node(
                "Binary",
                &[&|s| s.expr(a), &|s| s.str(&format!("{o:?}")), &|s| s.expr(b), &|s| s.loc(*l)],
            ),
            Expr::Function(f) => self.wrap("Function", &|s| s.fun(f)),
            Expr::Get(o, n, l) => self.node("Get", &[&|s| s.expr(o), &|s| s.str(n), &|s| s.loc(*l)]),
            Expr::GetIndex(a, b, l) => self.node("GetIndex", &[&|s| s.expr(a), &|s| s.expr(b), &|s| s.loc(*l)]),
            Expr::Grouping(e) => self.wrap("Grouping", &|s| s.expr(e)),
            Expr::LiteralArray(v) => self.wrap("LiteralArray", &|s| s.list(v, |s, x| s.expr(x))),
            Expr::LiteralBool(b) => self.wrap("LiteralBool", &|s| {
                let _ = write!(s.o, "{b}");
            }),
            Expr::LiteralMap(m) => self.wrap("LiteralMap", &|s| {
                s.o.push_str("Map{");
                for (k, v) in m.iter() {
                    s.entries += 1;
                    s.str(k);
                    s.o.push_str("=>");
                    s.expr(v);
                    s.o.push_str(";\n");
                }
                s.o.push('}');
            }),
            Expr::LiteralNumber(n) => self.wrap("LiteralNumber", &|s| s.num(*n)),
            Expr::LiteralNil => self.obj(&[("type", &|s| s.str("LiteralNil"))]),
            Expr::LiteralString(t) => self.wrap("LiteralString", &|s| s.str(t)),
            Expr::Logical(a, o, b) => {
                self.node("Logical", &[&|s| s.expr(a), &|s| s.str(&format!("{o:?}")), &|s| s.expr(b)])
            }
            Expr::Set(o, n, v, l) => {
                self.node("Set", &[&|s| s.expr(o), &|s| s.str(n), &|s| s.expr(v), &|s| s.loc(*l)])
            }
            Expr::SetIndex(a, b, v, l) => {
                self.node("SetIndex", &[&|s| s.expr(a), &|s| s.expr(b), &|s| s.expr(v), &|s| s.loc(*l)])
            }
            Expr::Super(c, n, l) => self.node("Super", &[&|s| s.var(c.get()), &|s| s.str(n), &|s| s.loc(*l)]),
            Expr::Variable(n, c, l) => {
                self.node("Variable", &[&|s| s.str(n), &|s| s.var(c.get()), &|s| s.loc(*l)])
            }
            Expr::Unary(o, e, l) => {
                self.node("Unary", &[&|s| s.str(&format!("{o:?}")), &|s| s.expr(e), &|s| s.loc(*l)])
            }
        }
    }
}
