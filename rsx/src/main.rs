//! rsx FILE: dump the syntax tree of a Rust file as JSON (one flat list of nodes with byte spans).
//! Used by the extractor (py/extract.py) to splice contracts into the real source text.
use proc_macro2::Span;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct V {
    nodes: Vec<Value>,
    stack: Vec<usize>,
}
fn r(s: Span) -> Value {
    let b = s.byte_range();
    json!([b.start, b.end])
}
impl V {
    fn open(&mut self, kind: &str, span: Span, extra: Value) {
        let id = self.nodes.len();
        let mut v = json!({"id": id, "k": kind, "p": self.stack.last(), "r": r(span)});
        if let Value::Object(m) = extra {
            for (k, x) in m {
                v[k] = x;
            }
        }
        self.nodes.push(v);
        self.stack.push(id);
    }
    fn close(&mut self) {
        self.stack.pop();
    }
}
fn attrs(a: &[syn::Attribute]) -> Value {
    Value::Array(
        a.iter()
            .map(|x| {
                use quote::ToTokens;
                json!({"r": r(x.span()), "t": x.meta.to_token_stream().to_string()})
            })
            .collect(),
    )
}
fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

impl<'a> Visit<'a> for V {
    fn visit_item(&mut self, i: &'a syn::Item) {
        let (k, name, at): (&str, String, Value) = match i {
            syn::Item::Fn(f) => ("Fn", f.sig.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Struct(f) => ("Struct", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Enum(f) => ("Enum", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Impl(f) => (
                "Impl",
                match &f.trait_ {
                    Some((_, p, _)) => format!("{} for {}", toks(p), toks(&*f.self_ty)),
                    None => toks(&*f.self_ty),
                },
                attrs(&f.attrs),
            ),
            syn::Item::Mod(f) => ("Mod", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Use(f) => ("Use", String::new(), attrs(&f.attrs)),
            syn::Item::Const(f) => ("Const", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Static(f) => ("Static", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Trait(f) => ("Trait", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Type(f) => ("TypeAlias", f.ident.to_string(), attrs(&f.attrs)),
            syn::Item::Macro(f) => (
                "Macro",
                f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default(),
                attrs(&f.attrs),
            ),
            _ => ("OtherItem", String::new(), json!([])),
        };
        let mut extra = json!({"name": name, "attrs": at, "item": true});
        if let syn::Item::Fn(f) = i {
            extra["sig"] = sig(&f.sig);
            extra["body"] = r(f.block.span());
            extra["vis"] = json!(toks(&f.vis));
        }
        if let syn::Item::Impl(f) = i {
            extra["brace"] = json!([f.brace_token.span.open().byte_range().start, f.brace_token.span.close().byte_range().end]);
        }
        if let syn::Item::Mod(f) = i {
            if let Some((b, _)) = &f.content {
                extra["brace"] = json!([b.span.open().byte_range().start, b.span.close().byte_range().end]);
            }
        }
        self.open(k, i.span(), extra);
        visit::visit_item(self, i);
        self.close();
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.open(
            "Method",
            f.span(),
            json!({"name": f.sig.ident.to_string(), "attrs": attrs(&f.attrs), "sig": sig(&f.sig), "body": r(f.block.span()), "vis": toks(&f.vis)}),
        );
        visit::visit_impl_item_fn(self, f);
        self.close();
    }
    fn visit_field(&mut self, f: &'a syn::Field) {
        self.open("Field", f.span(), json!({"name": f.ident.as_ref().map(|x| x.to_string()), "attrs": attrs(&f.attrs), "ty": toks(&f.ty)}));
        visit::visit_field(self, f);
        self.close();
    }
    fn visit_variant(&mut self, f: &'a syn::Variant) {
        self.open("Variant", f.span(), json!({"name": f.ident.to_string(), "attrs": attrs(&f.attrs)}));
        visit::visit_variant(self, f);
        self.close();
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        self.open("Block", b.span(), json!({"stmts": b.stmts.iter().map(|s| r(s.span())).collect::<Vec<_>>()}));
        visit::visit_block(self, b);
        self.close();
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.open("Stmt", s.span(), json!({}));
        visit::visit_stmt(self, s);
        self.close();
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        self.open(
            "Local",
            l.span(),
            json!({"pat": r(l.pat.span()), "init": l.init.as_ref().map(|i| r(i.expr.span())),
                   "else": l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| r(d.1.span())))}),
        );
        visit::visit_local(self, l);
        self.close();
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // Try to parse the arguments as a comma separated expression list.
        let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let args = m.parse_body_with(parser).ok();
        self.open(
            "MacroCall",
            m.span(),
            json!({"name": toks(&m.path), "args": args.as_ref().map(|a| a.iter().map(|e| r(e.span())).collect::<Vec<_>>())}),
        );
        if let Some(a) = &args {
            for e in a {
                self.visit_expr(e);
            }
        }
        self.close();
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.open("Arm", a.span(), json!({"pat": r(a.pat.span()), "guard": a.guard.as_ref().map(|g| r(g.1.span())), "body": r(a.body.span())}));
        visit::visit_arm(self, a);
        self.close();
    }
    fn visit_pat(&mut self, p: &'a syn::Pat) {
        self.open("Pat", p.span(), json!({"ident": if let syn::Pat::Ident(i) = p { Some(i.ident.to_string()) } else { None }}));
        visit::visit_pat(self, p);
        self.close();
    }
    fn visit_type(&mut self, t: &'a syn::Type) {
        self.open("Type", t.span(), json!({}));
        visit::visit_type(self, t);
        self.close();
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        use syn::Expr::*;
        let (k, x): (&str, Value) = match e {
            MethodCall(m) => (
                "MethodCall",
                json!({"method": m.method.to_string(), "recv": r(m.receiver.span()), "args": m.args.iter().map(|a| r(a.span())).collect::<Vec<_>>(),
                       "turbofish": m.turbofish.as_ref().map(|t| toks(t))}),
            ),
            Call(c) => ("Call", json!({"func": toks(&*c.func), "funcr": r(c.func.span()), "args": c.args.iter().map(|a| r(a.span())).collect::<Vec<_>>()})),
            While(w) => ("While", json!({"cond": r(w.cond.span()), "body": r(w.body.span()), "islet": matches!(&*w.cond, Let(_))})),
            ForLoop(f) => ("For", json!({"pat": r(f.pat.span()), "expr": r(f.expr.span()), "body": r(f.body.span())})),
            Loop(l) => ("Loop", json!({"body": r(l.body.span())})),
            If(i) => (
                "If",
                json!({"cond": r(i.cond.span()), "then": r(i.then_branch.span()), "else": i.else_branch.as_ref().map(|b| r(b.1.span())), "islet": matches!(&*i.cond, Let(_))}),
            ),
            Let(l) => ("Let", json!({"pat": r(l.pat.span()), "expr": r(l.expr.span())})),
            Match(m) => ("Match", json!({"expr": r(m.expr.span()), "arms": m.arms.iter().map(|a| r(a.span())).collect::<Vec<_>>()})),
            Closure(c) => (
                "Closure",
                json!({"inputs": c.inputs.iter().map(|p| r(p.span())).collect::<Vec<_>>(), "body": r(c.body.span())}),
            ),
            Index(i) => ("Index", json!({"expr": r(i.expr.span()), "index": r(i.index.span())})),
            Range(x) => (
                "Range",
                json!({"start": x.start.as_ref().map(|s| r(s.span())), "end": x.end.as_ref().map(|s| r(s.span())), "closed": matches!(x.limits, syn::RangeLimits::Closed(_))}),
            ),
            Reference(x) => ("Reference", json!({"expr": r(x.expr.span()), "mut": x.mutability.is_some()})),
            Binary(b) => ("Binary", json!({"op": toks(&b.op), "left": r(b.left.span()), "right": r(b.right.span())})),
            Unary(u) => ("Unary", json!({"op": toks(&u.op), "expr": r(u.expr.span())})),
            Assign(a) => ("Assign", json!({"left": r(a.left.span()), "right": r(a.right.span())})),
            Cast(c) => ("Cast", json!({"expr": r(c.expr.span()), "ty": toks(&*c.ty), "tyr": r(c.ty.span())})),
            Try(t) => ("Try", json!({"expr": r(t.expr.span())})),
            Return(t) => ("Return", json!({"expr": t.expr.as_ref().map(|e| r(e.span()))})),
            Break(_) => ("Break", json!({})),
            Continue(_) => ("Continue", json!({})),
            Path(p) => ("Path", json!({"path": toks(p)})),
            Lit(l) => ("Lit", json!({"lit": toks(l)})),
            Field(f) => ("FieldExpr", json!({"base": r(f.base.span()), "member": toks(&f.member)})),
            Struct(s) => ("StructExpr", json!({"path": toks(&s.path)})),
            Tuple(t) => ("Tuple", json!({"elems": t.elems.iter().map(|e| r(e.span())).collect::<Vec<_>>()})),
            Macro(_) => ("MacroExpr", json!({})),
            Block(_) => ("BlockExpr", json!({})),
            Unsafe(_) => ("Unsafe", json!({})),
            Paren(_) => ("Paren", json!({})),
            Array(_) => ("Array", json!({})),
            Repeat(_) => ("Repeat", json!({})),
            _ => ("OtherExpr", json!({})),
        };
        self.open(k, e.span(), x);
        visit::visit_expr(self, e);
        self.close();
    }
}
fn sig(s: &syn::Signature) -> Value {
    json!({
        "ident": r(s.ident.span()),
        "inputs": s.inputs.iter().map(|a| match a {
            syn::FnArg::Receiver(x) => json!({"name": "self", "r": r(x.span()), "ty": toks(x)}),
            syn::FnArg::Typed(t) => json!({"name": toks(&*t.pat), "r": r(t.span()), "ty": toks(&*t.ty), "tyr": r(t.ty.span())}),
        }).collect::<Vec<_>>(),
        "paren": [s.paren_token.span.open().byte_range().start, s.paren_token.span.close().byte_range().end],
        "output": match &s.output { syn::ReturnType::Default => Value::Null, syn::ReturnType::Type(_, t) => json!({"r": r(t.span()), "t": toks(&**t)}) },
        "generics": toks(&s.generics),
        "where": s.generics.where_clause.as_ref().map(|w| r(w.span())),
    })
}
fn main() {
    let path = std::env::args().nth(1).expect("usage: rsx FILE");
    let src = std::fs::read_to_string(&path).expect("read");
    match syn::parse_file(&src) {
        Ok(f) => {
            let mut v = V { nodes: vec![], stack: vec![] };
            v.visit_file(&f);
            println!("{}", json!({"ok": true, "nodes": v.nodes}));
        }
        Err(e) => println!("{}", json!({"ok": false, "error": e.to_string()})),
    }
}
