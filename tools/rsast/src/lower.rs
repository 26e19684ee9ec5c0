use crate::mexp::{self, Rules};
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::parse::{ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

pub struct Lower {
    pub files: Vec<String>,
    pub errors: Vec<String>,
    pub rules: HashMap<String, Rules>,
    file: usize,
    depth: usize,
}

fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}

fn cfg_eval(meta: &Meta) -> bool {
    match meta {
        Meta::Path(p) => {
            let n = p.to_token_stream().to_string();
            !matches!(n.as_str(), "test" | "windows" | "doctest" | "loom" | "miri")
        }
        Meta::NameValue(nv) => {
            let n = nv.path.to_token_stream().to_string();
            let v = nv.value.to_token_stream().to_string().replace('"', "");
            match n.as_str() {
                "target_os" => v == "linux",
                "target_family" => v == "unix",
                "target_pointer_width" => v == "64",
                _ => true,
            }
        }
        Meta::List(l) => {
            let n = l.path.to_token_stream().to_string();
            let inner = l
                .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            match n.as_str() {
                "not" => !inner.iter().all(cfg_eval),
                "any" => inner.iter().any(cfg_eval),
                "all" => inner.iter().all(cfg_eval),
                _ => true,
            }
        }
    }
}

pub fn enabled(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<Meta>() {
                if !cfg_eval(&m) {
                    return false;
                }
            }
        }
        let n = a.path().to_token_stream().to_string().replace(' ', "");
        if n == "test" || n == "tokio::test" {
            return false;
        }
    }
    true
}

fn attrs(a: &[Attribute]) -> Value {
    let mut out = vec![];
    for x in a {
        if x.path().is_ident("doc") {
            continue;
        }
        out.push(json!(x.meta.to_token_stream().to_string()));
    }
    json!(out)
}

impl Lower {
    pub fn new() -> Self {
        Lower { files: vec![], errors: vec![], rules: HashMap::new(), file: 0, depth: 0 }
    }

    pub fn load_file(&mut self, path: &Path, root: bool) -> Value {
        if root {
            // first pass only collects macro definitions
            let mut pre = Lower::new();
            pre.depth = 1;
            let _ = pre.load_one(path, true);
            self.rules = pre.rules;
        }
        self.load_one(path, root)
    }

    fn load_one(&mut self, path: &Path, root: bool) -> Value {
        let text = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => {
                self.errors.push(format!("{}: {}", path.display(), e));
                return json!([]);
            }
        };
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                self.errors.push(format!("{}:{}: {}", path.display(), e.span().start().line, e));
                return json!([]);
            }
        };
        let saved = self.file;
        self.file = self.files.len();
        self.files.push(path.display().to_string());
        let stem = path.file_stem().unwrap().to_string_lossy().to_string();
        let dir = path.parent().unwrap();
        let sub: PathBuf = if root || stem == "mod" { dir.to_path_buf() } else { dir.join(&stem) };
        let items = self.items(&ast.items, &sub);
        self.file = saved;
        items
    }

    fn items(&mut self, items: &[Item], dir: &Path) -> Value {
        let mut out = vec![];
        for i in items {
            if let Some(v) = self.item(i, dir) {
                out.push(v);
            }
        }
        json!(out)
    }

    fn item(&mut self, i: &Item, dir: &Path) -> Option<Value> {
        let f = self.file;
        match i {
            Item::Fn(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                Some(self.func(&x.sig, Some(&x.block), &x.attrs, vis(&x.vis)))
            }
            Item::Struct(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                Some(json!({"k":"struct","name":x.ident.to_string(),"fields":self.fields(&x.fields),"kind":fkind(&x.fields),"attrs":attrs(&x.attrs),"file":f,"line":line(&x.ident),"generics":self.generics(&x.generics)}))
            }
            Item::Union(_) => None,
            Item::Enum(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                let vs: Vec<Value> = x
                    .variants
                    .iter()
                    .filter(|v| enabled(&v.attrs))
                    .map(|v| json!({"name":v.ident.to_string(),"kind":fkind(&v.fields),"fields":self.fields(&v.fields),"attrs":attrs(&v.attrs),"disc":v.discriminant.as_ref().map(|d| self.expr(&d.1))}))
                    .collect();
                Some(json!({"k":"enum","name":x.ident.to_string(),"variants":vs,"attrs":attrs(&x.attrs),"file":f,"line":line(&x.ident),"generics":self.generics(&x.generics)}))
            }
            Item::Impl(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                let mut its = vec![];
                for it in &x.items {
                    match it {
                        ImplItem::Fn(m) if enabled(&m.attrs) => {
                            its.push(self.func(&m.sig, Some(&m.block), &m.attrs, vis(&m.vis)))
                        }
                        ImplItem::Const(c) => its.push(json!({"k":"const","name":c.ident.to_string(),"ty":self.ty(&c.ty),"e":self.expr(&c.expr),"file":f,"line":line(&c.ident)})),
                        ImplItem::Type(t) => its.push(json!({"k":"type","name":t.ident.to_string(),"ty":self.ty(&t.ty)})),
                        _ => {}
                    }
                }
                Some(json!({"k":"impl","self":self.ty(&x.self_ty),"trait":x.trait_.as_ref().map(|t| self.path(&t.1, None)),"items":its,"attrs":attrs(&x.attrs),"file":f,"line":line(&x.self_ty),"generics":self.generics(&x.generics)}))
            }
            Item::Trait(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                let mut its = vec![];
                for it in &x.items {
                    match it {
                        TraitItem::Fn(m) if enabled(&m.attrs) => {
                            its.push(self.func(&m.sig, m.default.as_ref(), &m.attrs, "pub"))
                        }
                        TraitItem::Const(c) => its.push(json!({"k":"const","name":c.ident.to_string(),"ty":self.ty(&c.ty),"e":c.default.as_ref().map(|d| self.expr(&d.1)),"file":f,"line":line(&c.ident)})),
                        _ => {}
                    }
                }
                Some(json!({"k":"trait","name":x.ident.to_string(),"items":its,"file":f,"line":line(&x.ident)}))
            }
            Item::Const(x) => enabled(&x.attrs).then(|| json!({"k":"const","name":x.ident.to_string(),"ty":self.ty(&x.ty),"e":self.expr(&x.expr),"file":f,"line":line(&x.ident)})),
            Item::Static(x) => enabled(&x.attrs).then(|| json!({"k":"static","name":x.ident.to_string(),"ty":self.ty(&x.ty),"e":self.expr(&x.expr),"file":f,"line":line(&x.ident)})),
            Item::Type(x) => Some(json!({"k":"type","name":x.ident.to_string(),"ty":self.ty(&x.ty),"generics":self.generics(&x.generics),"file":f,"line":line(&x.ident)})),
            Item::Use(x) => {
                let mut out = vec![];
                flatten_use(&x.tree, &mut vec![], &mut out);
                enabled(&x.attrs).then(|| json!({"k":"use","uses":out,"vis":vis(&x.vis)}))
            }
            Item::Mod(x) => {
                if !enabled(&x.attrs) {
                    return None;
                }
                let name = x.ident.to_string();
                let items = match &x.content {
                    Some((_, its)) => {
                        let d = dir.join(&name);
                        self.items(its, &d)
                    }
                    None => {
                        let mut pathattr = None;
                        for a in &x.attrs {
                            if a.path().is_ident("path") {
                                if let Meta::NameValue(nv) = &a.meta {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                        pathattr = Some(s.value());
                                    }
                                }
                            }
                        }
                        let p = match pathattr {
                            Some(s) => dir.join(s),
                            None => {
                                let p1 = dir.join(format!("{name}.rs"));
                                if p1.exists() { p1 } else { dir.join(&name).join("mod.rs") }
                            }
                        };
                        self.load_one(&p, false)
                    }
                };
                Some(json!({"k":"mod","name":name,"items":items,"vis":vis(&x.vis)}))
            }
            Item::Macro(x) => {
                if let Some(id) = &x.ident {
                    if let Some(r) = mexp::parse_rules(x.mac.tokens.clone()) {
                        self.rules.insert(id.to_string(), r);
                    }
                    Some(json!({"k":"macro_rules","name":id.to_string(),"file":f,"line":line(id)}))
                } else {
                    Some(json!({"k":"item_macro","name":pathstr(&x.mac.path),"toks":x.mac.tokens.to_string(),"file":f,"line":line(&x.mac)}))
                }
            }
            _ => None,
        }
    }

    fn generics(&mut self, g: &Generics) -> Value {
        let mut out = vec![];
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                let b: Vec<Value> = t.bounds.iter().filter_map(|b| self.bound(b)).collect();
                let d = t.default.as_ref().map(|d| self.ty(d));
                out.push(json!({"n":t.ident.to_string(),"b":b,"d":d,"param":true}));
            }
        }
        if let Some(w) = &g.where_clause {
            for pred in &w.predicates {
                if let WherePredicate::Type(t) = pred {
                    let b: Vec<Value> = t.bounds.iter().filter_map(|b| self.bound(b)).collect();
                    out.push(json!({"n":t.bounded_ty.to_token_stream().to_string(),"b":b}));
                }
            }
        }
        json!(out)
    }

    fn bound(&mut self, b: &TypeParamBound) -> Option<Value> {
        match b {
            TypeParamBound::Trait(t) => Some(self.path(&t.path, None)),
            _ => None,
        }
    }

    fn fields(&mut self, fs: &Fields) -> Value {
        let v: Vec<Value> = fs
            .iter()
            .filter(|f| enabled(&f.attrs))
            .enumerate()
            .map(|(i, f)| json!({"name":f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()),"ty":self.ty(&f.ty),"attrs":attrs(&f.attrs),"vis":vis(&f.vis)}))
            .collect();
        json!(v)
    }

    fn func(&mut self, sig: &Signature, body: Option<&Block>, at: &[Attribute], v: &str) -> Value {
        let mut selfp = Value::Null;
        let mut params = vec![];
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    selfp = json!(match (&r.reference, &r.mutability) {
                        (Some(_), Some(_)) => "&mut self",
                        (Some(_), None) => "&self",
                        (None, Some(_)) => "mut self",
                        (None, None) => "self",
                    })
                }
                FnArg::Typed(t) => params.push(json!({"pat":self.pat(&t.pat),"ty":self.ty(&t.ty)})),
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => Value::Null,
            ReturnType::Type(_, t) => self.ty(t),
        };
        let b = body.map(|b| self.block(b));
        json!({"k":"fn","name":sig.ident.to_string(),"self":selfp,"params":params,"ret":ret,
            "async":sig.asyncness.is_some(),"generics":self.generics(&sig.generics),"body":b,
            "attrs":attrs(at),"vis":v,"file":self.file,"line":line(&sig.ident)})
    }

    pub fn path(&mut self, p: &Path_, q: Option<&QSelf>) -> Value {
        let mut segs = vec![];
        for s in &p.segments {
            let mut args = vec![];
            match &s.arguments {
                PathArguments::AngleBracketed(a) => {
                    for g in &a.args {
                        match g {
                            GenericArgument::Type(t) => args.push(self.ty(t)),
                            GenericArgument::AssocType(t) => args.push(json!({"k":"assoc","n":t.ident.to_string(),"t":self.ty(&t.ty)})),
                            GenericArgument::Const(e) => args.push(json!({"k":"constarg","e":self.expr(e)})),
                            _ => {}
                        }
                    }
                }
                PathArguments::Parenthesized(a) => {
                    let ins: Vec<Value> = a.inputs.iter().map(|t| self.ty(t)).collect();
                    let out = match &a.output {
                        ReturnType::Default => Value::Null,
                        ReturnType::Type(_, t) => self.ty(t),
                    };
                    args.push(json!({"k":"fnargs","ins":ins,"out":out}));
                }
                PathArguments::None => {}
            }
            segs.push(json!([s.ident.to_string(), args]));
        }
        json!({"segs":segs,"qself":q.map(|q| self.ty(&q.ty)),"abs":p.leading_colon.is_some()})
    }

    pub fn ty(&mut self, t: &Type) -> Value {
        match t {
            Type::Path(p) => {
                let path = self.path(&p.path, p.qself.as_ref());
                json!({"k":"path","p":path})
            }
            Type::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"t":self.ty(&r.elem)}),
            Type::Tuple(x) => json!({"k":"tuple","ts":x.elems.iter().map(|e| self.ty(e)).collect::<Vec<_>>()}),
            Type::Slice(s) => json!({"k":"slice","t":self.ty(&s.elem)}),
            Type::Array(a) => json!({"k":"array","t":self.ty(&a.elem),"len":self.expr(&a.len)}),
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::Never(_) => json!({"k":"never"}),
            Type::Infer(_) => json!({"k":"infer"}),
            Type::ImplTrait(i) => json!({"k":"impl","b":i.bounds.iter().filter_map(|b| self.bound(b)).collect::<Vec<_>>()}),
            Type::TraitObject(i) => json!({"k":"dyn","b":i.bounds.iter().filter_map(|b| self.bound(b)).collect::<Vec<_>>()}),
            Type::Ptr(p) => json!({"k":"ref","mut":p.mutability.is_some(),"t":self.ty(&p.elem)}),
            _ => json!({"k":"other","s":t.to_token_stream().to_string()}),
        }
    }

    fn block(&mut self, b: &Block) -> Value {
        // local macros are visible in the rest of the block
        let saved = self.rules.clone();
        let mut out = vec![];
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    if !enabled(&l.attrs) {
                        continue;
                    }
                    let (pat, ty) = match &l.pat {
                        Pat::Type(pt) => (self.pat(&pt.pat), self.ty(&pt.ty)),
                        p => (self.pat(p), Value::Null),
                    };
                    let (init, els) = match &l.init {
                        Some(i) => (self.expr(&i.expr), i.diverge.as_ref().map(|d| self.expr(&d.1))),
                        None => (Value::Null, None),
                    };
                    out.push(json!({"k":"let","pat":pat,"ty":ty,"init":init,"else":els,"line":line(l)}));
                }
                Stmt::Expr(e, semi) => {
                    if !enabled(expr_attrs(e)) {
                        continue;
                    }
                    out.push(json!({"k":"expr","e":self.expr(e),"semi":semi.is_some(),"line":line(e)}))
                }
                Stmt::Macro(m) => {
                    if !enabled(&m.attrs) {
                        continue;
                    }
                    let e = self.mac(&m.mac);
                    out.push(json!({"k":"expr","e":e,"semi":m.semi_token.is_some(),"line":line(&m.mac)}));
                }
                Stmt::Item(i) => {
                    if let Some(v) = self.item(i, Path::new("/nonexistent")) {
                        out.push(json!({"k":"item","item":v}));
                    }
                }
            }
        }
        self.rules = saved;
        json!(out)
    }

    pub fn expr(&mut self, e: &Expr) -> Value {
        let ln = line(e);
        let mut v = self.expr_(e);
        if let Value::Object(m) = &mut v {
            m.entry("line").or_insert(json!(ln));
        }
        v
    }

    fn expr_(&mut self, e: &Expr) -> Value {
        match e {
            Expr::Lit(l) => lit(&l.lit),
            Expr::Path(p) => {
                let pp = self.path(&p.path, p.qself.as_ref());
                json!({"k":"path","p":pp})
            }
            Expr::Call(c) => {
                let f = self.expr(&c.func);
                let a = self.exprs(c.args.iter());
                json!({"k":"call","f":f,"args":a})
            }
            Expr::MethodCall(c) => {
                let r = self.expr(&c.receiver);
                let a = self.exprs(c.args.iter());
                let t: Vec<Value> = c
                    .turbofish
                    .as_ref()
                    .map(|t| t.args.iter().filter_map(|g| match g { GenericArgument::Type(t) => Some(self.ty(t)), _ => None }).collect())
                    .unwrap_or_default();
                json!({"k":"mcall","recv":r,"name":c.method.to_string(),"targs":t,"args":a,"line":line(&c.method)})
            }
            Expr::Field(f) => {
                let n = match &f.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                json!({"k":"field","e":self.expr(&f.base),"name":n})
            }
            Expr::Index(i) => json!({"k":"index","e":self.expr(&i.expr),"i":self.expr(&i.index)}),
            Expr::Unary(u) => {
                let op = match u.op { UnOp::Deref(_) => "*", UnOp::Not(_) => "!", UnOp::Neg(_) => "-", _ => "?" };
                json!({"k":"unary","op":op,"e":self.expr(&u.expr)})
            }
            Expr::Binary(b) => {
                let op = b.op.to_token_stream().to_string();
                let assign = op.len() > 1 && op.ends_with('=') && !matches!(op.as_str(), "==" | "!=" | "<=" | ">=");
                if assign {
                    let o = &op[..op.len() - 1];
                    json!({"k":"opassign","op":o,"l":self.expr(&b.left),"r":self.expr(&b.right)})
                } else {
                    json!({"k":"binary","op":op,"l":self.expr(&b.left),"r":self.expr(&b.right)})
                }
            }
            Expr::Assign(a) => json!({"k":"assign","l":self.expr(&a.left),"r":self.expr(&a.right)}),
            Expr::If(i) => json!({"k":"if","c":self.expr(&i.cond),"t":self.block(&i.then_branch),"e":i.else_branch.as_ref().map(|x| self.expr(&x.1))}),
            Expr::Let(l) => json!({"k":"letc","pat":self.pat(&l.pat),"e":self.expr(&l.expr)}),
            Expr::Match(m) => {
                let ex = self.expr(&m.expr);
                let arms: Vec<Value> = m
                    .arms
                    .iter()
                    .filter(|a| enabled(&a.attrs))
                    .map(|a| json!({"pat":self.pat(&a.pat),"guard":a.guard.as_ref().map(|g| self.expr(&g.1)),"body":self.expr(&a.body),"line":line(&a.pat)}))
                    .collect();
                json!({"k":"match","e":ex,"arms":arms})
            }
            Expr::Block(b) => json!({"k":"block","stmts":self.block(&b.block),"label":b.label.as_ref().map(|l| l.name.ident.to_string())}),
            Expr::Unsafe(b) => json!({"k":"block","stmts":self.block(&b.block),"label":null,"unsafe":true}),
            Expr::Const(b) => json!({"k":"block","stmts":self.block(&b.block),"label":null}),
            Expr::TryBlock(b) => json!({"k":"tryblock","stmts":self.block(&b.block)}),
            Expr::Loop(l) => json!({"k":"loop","body":self.block(&l.body),"label":l.label.as_ref().map(|l| l.name.ident.to_string())}),
            Expr::While(w) => json!({"k":"while","c":self.expr(&w.cond),"body":self.block(&w.body),"label":w.label.as_ref().map(|l| l.name.ident.to_string())}),
            Expr::ForLoop(f) => json!({"k":"for","pat":self.pat(&f.pat),"e":self.expr(&f.expr),"body":self.block(&f.body),"label":f.label.as_ref().map(|l| l.name.ident.to_string())}),
            Expr::Break(b) => json!({"k":"break","label":b.label.as_ref().map(|l| l.ident.to_string()),"e":b.expr.as_ref().map(|e| self.expr(e))}),
            Expr::Continue(b) => json!({"k":"continue","label":b.label.as_ref().map(|l| l.ident.to_string())}),
            Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e| self.expr(e))}),
            Expr::Closure(c) => {
                let params: Vec<Value> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => json!({"pat":self.pat(&t.pat),"ty":self.ty(&t.ty)}),
                        p => json!({"pat":self.pat(p),"ty":null}),
                    })
                    .collect();
                let ret = match &c.output {
                    ReturnType::Default => Value::Null,
                    ReturnType::Type(_, t) => self.ty(t),
                };
                json!({"k":"closure","params":params,"body":self.expr(&c.body),"move":c.capture.is_some(),"async":c.asyncness.is_some(),"ret":ret})
            }
            Expr::Struct(s) => {
                let fs: Vec<Value> = s
                    .fields
                    .iter()
                    .filter(|f| enabled(&f.attrs))
                    .map(|f| {
                        let n = match &f.member {
                            Member::Named(i) => i.to_string(),
                            Member::Unnamed(i) => i.index.to_string(),
                        };
                        json!({"n":n,"e":self.expr(&f.expr)})
                    })
                    .collect();
                json!({"k":"struct","p":self.path(&s.path, s.qself.as_ref()),"fields":fs,"rest":s.rest.as_ref().map(|r| self.expr(r))})
            }
            Expr::Tuple(t) => json!({"k":"tuple","es":self.exprs(t.elems.iter())}),
            Expr::Array(t) => json!({"k":"array","es":self.exprs(t.elems.iter())}),
            Expr::Repeat(r) => json!({"k":"repeat","e":self.expr(&r.expr),"n":self.expr(&r.len)}),
            Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":self.expr(&r.expr)}),
            Expr::RawAddr(r) => json!({"k":"ref","mut":true,"e":self.expr(&r.expr)}),
            Expr::Try(t) => json!({"k":"try","e":self.expr(&t.expr)}),
            Expr::Await(a) => json!({"k":"await","e":self.expr(&a.base)}),
            Expr::Async(a) => json!({"k":"async","stmts":self.block(&a.block)}),
            Expr::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|x| self.expr(x)),"hi":r.end.as_ref().map(|x| self.expr(x)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
            Expr::Cast(c) => json!({"k":"cast","e":self.expr(&c.expr),"ty":self.ty(&c.ty)}),
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Infer(_) => json!({"k":"infer"}),
            _ => json!({"k":"other","s":e.to_token_stream().to_string()}),
        }
    }

    fn exprs<'a>(&mut self, it: impl Iterator<Item = &'a Expr>) -> Value {
        let v: Vec<Value> = it.map(|e| self.expr(e)).collect();
        json!(v)
    }

    fn mac(&mut self, m: &Macro) -> Value {
        let name = pathstr(&m.path);
        let ln = line(&m.path);
        let last = m.path.segments.last().unwrap().ident.to_string();
        let rules = if m.path.segments.len() == 1 { self.rules.get(&last).cloned() } else { None };
        if last != "metric" && self.depth < 24 {
            if let Some(r) = rules {
                if let Some(ts) = mexp::expand(&r, m.tokens.clone()) {
                    self.depth += 1;
                    let as_block = |input: ParseStream| -> Result<Vec<Stmt>> { Block::parse_within(input) };
                    let v = if let Ok(e) = syn::parse2::<Expr>(ts.clone()) {
                        Some(self.expr(&e))
                    } else if let Ok(stmts) = as_block.parse2(ts) {
                        let b = Block { brace_token: Default::default(), stmts };
                        Some(json!({"k":"block","stmts":self.block(&b),"label":null}))
                    } else {
                        None
                    };
                    self.depth -= 1;
                    if let Some(v) = v {
                        return json!({"k":"expanded","name":last,"e":v,"line":ln});
                    }
                }
            }
        }
        if last == "matches" {
            let p = |input: ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                let e: Expr = input.parse()?;
                input.parse::<Token![,]>()?;
                let pat = Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(Token![if]) {
                    input.parse::<Token![if]>()?;
                    Some(input.parse::<Expr>()?)
                } else {
                    None
                };
                let _ = input.parse::<Option<Token![,]>>()?;
                Ok((e, pat, g))
            };
            if let Ok((e, pat, g)) = p.parse2(m.tokens.clone()) {
                return json!({"k":"match","line":ln,"e":self.expr(&e),"arms":[
                    {"pat":self.pat(&pat),"guard":g.as_ref().map(|g| self.expr(g)),"body":{"k":"lit","t":"bool","v":true},"line":ln},
                    {"pat":{"k":"wild"},"guard":null,"body":{"k":"lit","t":"bool","v":false},"line":ln}]});
            }
        }
        if last == "select" {
            if let Some(v) = self.select(&m.tokens, ln) {
                return v;
            }
        }
        if last == "vec" {
            let p = |input: ParseStream| -> Result<(Expr, Expr)> {
                let a: Expr = input.parse()?;
                input.parse::<Token![;]>()?;
                let b: Expr = input.parse()?;
                Ok((a, b))
            };
            if let Ok((a, b)) = p.parse2(m.tokens.clone()) {
                return json!({"k":"repeat","e":self.expr(&a),"n":self.expr(&b),"line":ln,"vec":true});
            }
        }
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        let args = p.parse2(m.tokens.clone()).ok().map(|a| self.exprs(a.iter()));
        json!({"k":"macro","name":name,"args":args,"toks":m.tokens.to_string(),"line":ln})
    }

    fn select(&mut self, ts: &TokenStream, ln: usize) -> Option<Value> {
        let mut arms: Vec<(Option<Pat>, Option<Expr>, Option<Expr>, Expr)> = vec![];
        let p = |input: ParseStream| -> Result<()> {
            while !input.is_empty() {
                if input.peek(Ident) && input.peek2(Token![;]) {
                    let _: Ident = input.parse()?;
                    let _: Token![;] = input.parse()?;
                    continue;
                }
                if input.peek(Token![else]) {
                    input.parse::<Token![else]>()?;
                    input.parse::<Token![=>]>()?;
                    let b: Expr = input.parse()?;
                    arms.push((None, None, None, b));
                } else {
                    let pat = Pat::parse_multi_with_leading_vert(input)?;
                    input.parse::<Token![=]>()?;
                    let f: Expr = input.parse()?;
                    let g = if input.peek(Token![,]) {
                        input.parse::<Token![,]>()?;
                        input.parse::<Token![if]>()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    input.parse::<Token![=>]>()?;
                    let b: Expr = if input.peek(token::Brace) {
                        let b: Block = input.parse()?;
                        Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
                    } else {
                        input.parse()?
                    };
                    arms.push((Some(pat), Some(f), g, b));
                }
                let _ = input.parse::<Option<Token![,]>>()?;
            }
            Ok(())
        };
        p.parse2(ts.clone()).ok()?;
        let v: Vec<Value> = arms
            .iter()
            .map(|(p, f, g, b)| json!({"pat":p.as_ref().map(|p| self.pat(p)),"fut":f.as_ref().map(|e| self.expr(e)),"cond":g.as_ref().map(|e| self.expr(e)),"body":self.expr(b)}))
            .collect();
        Some(json!({"k":"select","arms":v,"line":ln}))
    }

    pub fn pat(&mut self, p: &Pat) -> Value {
        match p {
            Pat::Ident(i) => json!({"k":"ident","name":i.ident.to_string(),"byref":i.by_ref.is_some(),"mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s| self.pat(&s.1)),"line":line(i)}),
            Pat::Wild(_) => json!({"k":"wild"}),
            Pat::Rest(_) => json!({"k":"rest"}),
            Pat::Lit(l) => json!({"k":"lit","e":lit(&l.lit)}),
            Pat::Path(x) => json!({"k":"path","p":self.path(&x.path, x.qself.as_ref())}),
            Pat::TupleStruct(t) => json!({"k":"tstruct","p":self.path(&t.path, t.qself.as_ref()),"es":self.pats(t.elems.iter())}),
            Pat::Struct(s) => {
                let fs: Vec<Value> = s
                    .fields
                    .iter()
                    .filter(|f| enabled(&f.attrs))
                    .map(|f| {
                        let n = match &f.member {
                            Member::Named(i) => i.to_string(),
                            Member::Unnamed(i) => i.index.to_string(),
                        };
                        json!({"n":n,"pat":self.pat(&f.pat)})
                    })
                    .collect();
                json!({"k":"struct","p":self.path(&s.path, s.qself.as_ref()),"fields":fs,"rest":s.rest.is_some()})
            }
            Pat::Tuple(t) => json!({"k":"tuple","es":self.pats(t.elems.iter())}),
            Pat::Or(o) => json!({"k":"or","ps":self.pats(o.cases.iter())}),
            Pat::Reference(r) => json!({"k":"ref","pat":self.pat(&r.pat)}),
            Pat::Slice(s) => json!({"k":"slice","es":self.pats(s.elems.iter())}),
            Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|x| self.expr(x)),"hi":r.end.as_ref().map(|x| self.expr(x)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
            Pat::Type(t) => self.pat(&t.pat),
            Pat::Paren(t) => self.pat(&t.pat),
            Pat::Const(c) => json!({"k":"constblock","e":{"k":"block","stmts":self.block(&c.block),"label":null}}),
            _ => json!({"k":"other","s":p.to_token_stream().to_string()}),
        }
    }

    fn pats<'a>(&mut self, it: impl Iterator<Item = &'a Pat>) -> Value {
        let v: Vec<Value> = it.map(|e| self.pat(e)).collect();
        json!(v)
    }
}

type Path_ = syn::Path;
use std::path::Path as _StdPath;
#[allow(unused)]
type _P = _StdPath;

fn pathstr(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn vis(v: &Visibility) -> &'static str {
    match v {
        Visibility::Public(_) => "pub",
        Visibility::Restricted(_) => "crate",
        Visibility::Inherited => "priv",
    }
}

fn fkind(f: &Fields) -> &'static str {
    match f {
        Fields::Named(_) => "named",
        Fields::Unnamed(_) => "tuple",
        Fields::Unit => "unit",
    }
}

fn flatten_use(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let name = n.ident.to_string();
            let mut p = pre.clone();
            if name == "self" {
                let last = p.last().cloned().unwrap_or_default();
                out.push(json!({"p":p,"as":last}));
            } else {
                p.push(name.clone());
                out.push(json!({"p":p,"as":name}));
            }
        }
        UseTree::Rename(r) => {
            let mut p = pre.clone();
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            out.push(json!({"p":p,"as":r.rename.to_string()}));
        }
        UseTree::Glob(_) => out.push(json!({"p":pre.clone(),"as":"*"})),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre, out);
            }
        }
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"lit","t":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"lit","t":"bytes","v":s.value()}),
        Lit::CStr(s) => json!({"k":"lit","t":"bytes","v":s.value().into_bytes()}),
        Lit::Byte(b) => json!({"k":"lit","t":"int","v":b.value().to_string(),"suf":"u8"}),
        Lit::Char(c) => json!({"k":"lit","t":"char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"lit","t":"int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Float(f) => json!({"k":"lit","t":"float","v":f.base10_digits()}),
        Lit::Bool(b) => json!({"k":"lit","t":"bool","v":b.value}),
        _ => json!({"k":"lit","t":"other","v":l.to_token_stream().to_string()}),
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}
