//! vx: mechanical extraction of functions from /repo into Verus unit files.
//!
//! usage: vx REPO TEMPLATE OUT REPORT [--vacuity none|fn|loop] [--lock FILE] [--write-lock]
use proc_macro2::{LineColumn, Span};
use regex::Regex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    text: String,
    line_starts: Vec<usize>,
    file: syn::File,
}

impl Src {
    fn load(path: &str) -> Result<Src, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
        let mut line_starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_starts.push(i + 1);
            }
        }
        Ok(Src { text, line_starts, file })
    }
    fn off(&self, lc: LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        let line = &self.text[ls..];
        let mut o = ls;
        for (n, c) in line.chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

struct FoundFn<'a> {
    attrs: &'a [syn::Attribute],
    vis: Option<&'a syn::Visibility>,
    sig: &'a syn::Signature,
    block: &'a syn::Block,
}

fn is_test_mod(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            s.contains("test") && !s.contains("not")
        }
    })
}

fn type_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_ident(&r.elem),
        _ => String::new(),
    }
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            if is_test_mod(&m.attrs) {
                continue;
            }
            if let Some((_, c)) = &m.content {
                all_items(c, out);
            }
        }
        out.push(i);
    }
}

fn find_fn<'a>(file: &'a syn::File, item: &str) -> Option<FoundFn<'a>> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let (owner, name) = match item.rsplit_once("::") {
        Some((o, n)) => (Some(o.trim()), n.trim()),
        None => (None, item.trim()),
    };
    let (tr, ty) = match owner {
        None => (None, None),
        Some(o) => match o.split_once(" for ") {
            Some((t, y)) => (Some(t.trim()), Some(y.trim())),
            None => (None, Some(o)),
        },
    };
    for i in &items {
        match (i, ty) {
            (syn::Item::Fn(f), None) if f.sig.ident == name => {
                return Some(FoundFn { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block })
            }
            (syn::Item::Impl(im), Some(ty)) => {
                if type_ident(&im.self_ty) != ty {
                    continue;
                }
                match (&im.trait_, tr) {
                    (Some((_, p, _)), Some(t)) => {
                        if p.segments.last().map(|s| s.ident != t).unwrap_or(true) {
                            continue;
                        }
                    }
                    (None, None) => {}
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            return Some(FoundFn { attrs: &f.attrs, vis: Some(&f.vis), sig: &f.sig, block: &f.block });
                        }
                    }
                }
            }
            (syn::Item::Trait(t), Some(ty)) if t.ident == ty && tr.is_none() => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(FoundFn { attrs: &f.attrs, vis: None, sig: &f.sig, block: b });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn all_fn_names(file: &syn::File) -> HashSet<String> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut r = HashSet::new();
    for i in items {
        match i {
            syn::Item::Fn(f) => {
                r.insert(f.sig.ident.to_string());
            }
            syn::Item::Impl(im) if im.trait_.is_none() => {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        r.insert(f.sig.ident.to_string());
                    }
                }
            }
            _ => {}
        }
    }
    r
}

#[derive(Default)]
struct Facts {
    loops: Vec<LoopInfo>,
    calls: Vec<(String, (LineColumn, LineColumn))>,
    stmts: Vec<(LineColumn, LineColumn)>,
    binds: Vec<String>,
    let_chains: Vec<syn::ExprIf>,
    log_macros: Vec<(LineColumn, LineColumn)>,
    closures: usize,
}
struct LoopInfo {
    kind: &'static str,
    body_open: LineColumn,
    body_close: LineColumn,
    start: LineColumn,
    end: LineColumn,
    in_kw_end: Option<LineColumn>,
    for_parts: Option<((LineColumn, LineColumn), (LineColumn, LineColumn))>,
}

const LOG: [&str; 5] = ["debug", "trace", "info", "warn", "error"];

fn has_let(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Let(_) => true,
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
fn flatten_and<'a>(e: &'a syn::Expr, out: &mut Vec<&'a syn::Expr>) {
    if let syn::Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) && has_let(e) {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
            return;
        }
    }
    out.push(e);
}

impl<'ast> Visit<'ast> for Facts {
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        self.loops.push(LoopInfo {
            kind: "while",
            body_open: n.body.brace_token.span.open().start(),
            body_close: n.body.brace_token.span.close().start(),
            start: n.span().start(),
            end: n.span().end(),
            in_kw_end: None,
            for_parts: None,
        });
        visit::visit_expr_while(self, n);
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        self.loops.push(LoopInfo {
            kind: "loop",
            body_open: n.body.brace_token.span.open().start(),
            body_close: n.body.brace_token.span.close().start(),
            start: n.span().start(),
            end: n.span().end(),
            in_kw_end: None,
            for_parts: None,
        });
        visit::visit_expr_loop(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.loops.push(LoopInfo {
            kind: "for",
            body_open: n.body.brace_token.span.open().start(),
            body_close: n.body.brace_token.span.close().start(),
            start: n.span().start(),
            end: n.span().end(),
            in_kw_end: Some(n.in_token.span().end()),
            for_parts: Some((
                (n.pat.span().start(), n.pat.span().end()),
                (n.expr.span().start(), n.expr.span().end()),
            )),
        });
        visit::visit_expr_for_loop(self, n);
    }
    fn visit_expr_closure(&mut self, n: &'ast syn::ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, n);
    }
    fn visit_expr_if(&mut self, n: &'ast syn::ExprIf) {
        if matches!(&*n.cond, syn::Expr::Binary(_)) && has_let(&n.cond) {
            self.let_chains.push(n.clone());
        }
        visit::visit_expr_if(self, n);
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        self.calls.push((n.method.to_string(), (n.span().start(), n.span().end())));
        visit::visit_expr_method_call(self, n);
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func {
            if let Some(s) = p.path.segments.last() {
                self.calls.push((s.ident.to_string(), (n.span().start(), n.span().end())));
            }
        }
        visit::visit_expr_call(self, n);
    }
    fn visit_stmt(&mut self, n: &'ast syn::Stmt) {
        let s = n.span();
        self.stmts.push((s.start(), s.end()));
        if let syn::Stmt::Macro(m) = n {
            if let Some(i) = m.mac.path.segments.last() {
                if LOG.iter().any(|l| i.ident == l) {
                    self.log_macros.push((s.start(), s.end()));
                }
            }
        }
        visit::visit_stmt(self, n);
    }
    fn visit_pat_ident(&mut self, n: &'ast syn::PatIdent) {
        self.binds.push(n.ident.to_string());
        visit::visit_pat_ident(self, n);
    }
}

#[derive(Default, Clone)]
struct FnDir {
    src: String,
    item: String,
    opts: HashMap<String, String>,
    rewrites: Vec<(String, String, bool)>,
    spec: String,
    loops: BTreeMap<usize, String>,
    fornames: BTreeMap<usize, String>,
    ats: Vec<(String, String)>,
}

fn parse_kv(s: &str) -> HashMap<String, String> {
    // key=value pairs, values may be quoted
    let re = Regex::new(r#"(\w+)=("([^"]*)"|\S+)"#).unwrap();
    re.captures_iter(s)
        .map(|c| {
            let v = c.get(3).map(|m| m.as_str()).unwrap_or(c.get(2).unwrap().as_str());
            (c[1].to_string(), v.to_string())
        })
        .collect()
}

fn subst_names(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let re = Regex::new(r"[A-Za-z_][A-Za-z0-9_]*").unwrap();
    re.replace_all(text, |c: &regex::Captures| {
        let w = &c[0];
        map.get(w).cloned().unwrap_or_else(|| w.to_string())
    })
    .to_string()
}

struct Edit {
    start: usize,
    end: usize,
    text: String,
    prio: i32,
}

struct Renderer<'a> {
    src: &'a Src,
    edits: Vec<Edit>,
    chains: HashMap<usize, syn::ExprIf>,
}
impl<'a> Renderer<'a> {
    fn render(&self, start: usize, end: usize) -> String {
        self.render_x(start, end, usize::MAX)
    }
    fn render_x(&self, start: usize, end: usize, skip_chain: usize) -> String {
        let mut out = String::new();
        let mut pos = start;
        let mut ei = 0;
        while pos <= end {
            // edits at pos
            let mut jumped = false;
            while ei < self.edits.len() && self.edits[ei].start < pos {
                ei += 1;
            }
            while ei < self.edits.len() && self.edits[ei].start == pos && self.edits[ei].end <= end {
                // an insertion exactly at the end boundary belongs to the enclosing range
                if self.edits[ei].start == end && end != start && self.edits[ei].end == end {
                    break;
                }
                out.push_str(&self.edits[ei].text);
                if self.edits[ei].end > pos {
                    pos = self.edits[ei].end;
                    jumped = true;
                    ei += 1;
                    break;
                }
                ei += 1;
            }
            if jumped {
                continue;
            }
            if pos >= end {
                break;
            }
            if pos != skip_chain {
                if let Some(ch) = self.chains.get(&pos) {
                    let (_, ce) = self.src.range(ch.span());
                    if ce <= end {
                        out.push_str(&self.render_chain(ch));
                        pos = ce;
                        continue;
                    }
                }
            }
            // copy up to the next interesting position
            let mut next = end;
            let mut k = ei;
            while k < self.edits.len() {
                if self.edits[k].start > pos {
                    next = next.min(self.edits[k].start);
                    break;
                }
                k += 1;
            }
            for c in self.chains.keys() {
                if *c > pos && *c < next {
                    next = *c;
                }
            }
            out.push_str(&self.src.text[pos..next]);
            pos = next;
        }
        out
    }
    fn render_chain(&self, ch: &syn::ExprIf) -> String {
        let mut parts = Vec::new();
        flatten_and(&ch.cond, &mut parts);
        // merge consecutive plain conditions
        let mut conds: Vec<String> = Vec::new();
        let mut last_plain = false;
        for p in parts {
            let (s, e) = self.src.range(p.span());
            let t = self.render(s, e);
            let plain = !matches!(p, syn::Expr::Let(_));
            if plain && last_plain {
                let l = conds.last_mut().unwrap();
                *l = format!("({}) && ({})", l, t);
            } else {
                conds.push(t);
            }
            last_plain = plain;
        }
        let (bs, be) = self.src.range(ch.then_branch.span());
        let body = self.render(bs, be);
        let els = ch.else_branch.as_ref().map(|(_, e)| {
            let (s, e2) = self.src.range(e.span());
            let t = self.render(s, e2);
            format!(" else {}", if t.trim_start().starts_with('{') { t } else { format!("{{ {} }}", t) })
        });
        let els = els.unwrap_or_default();
        let mut r = body;
        for (i, c) in conds.iter().enumerate().rev() {
            r = if i + 1 == conds.len() { format!("if {} {}{}", c, r, els) } else { format!("if {} {{ {} }}{}", c, r, els) };
        }
        r
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = &args[1];
    let template_path = &args[2];
    let out_path = &args[3];
    let report_path = &args[4];
    let mut vacuity = "none".to_string();
    let mut lock_path: Option<String> = None;
    let mut write_lock = false;
    let mut demote: HashSet<String> = HashSet::new();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--vacuity" => {
                vacuity = args[i + 1].clone();
                i += 1;
            }
            "--lock" => {
                lock_path = Some(args[i + 1].clone());
                i += 1;
            }
            "--write-lock" => write_lock = true,
            "--demote" => {
                demote = args[i + 1].split(';').filter(|x| !x.is_empty()).map(String::from).collect();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let lock: Value = lock_path
        .as_ref()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(json!({}));
    let mut new_lock = serde_json::Map::new();

    let template_raw = std::fs::read_to_string(template_path).unwrap();
    // textual includes (shared dependency contracts)
    let mut template = String::new();
    let dir = std::path::Path::new(template_path).parent().unwrap().to_path_buf();
    for l in template_raw.lines() {
        if let Some(f) = l.trim_start().strip_prefix("//@include ") {
            template.push_str(&std::fs::read_to_string(dir.join(f.trim())).unwrap());
        } else {
            template.push_str(l);
        }
        template.push('\n');
    }
    let known_fn_re = Regex::new(r"\bfn\s+(\w+)").unwrap();
    let mut known: HashSet<String> = known_fn_re.captures_iter(&template).map(|c| c[1].to_string()).collect();

    let lines: Vec<&str> = template.lines().collect();
    // pre-scan for extracted fn names
    for l in &lines {
        if let Some(r) = l.trim_start().strip_prefix("//@fn ") {
            let kv = parse_kv(r);
            let item = kv.get("item").cloned().unwrap_or_default();
            known.insert(item.rsplit("::").next().unwrap().trim().to_string());
        }
        if let Some(r) = l.trim_start().strip_prefix("//@inlined ") {
            for n in r.split_whitespace() {
                known.insert(n.to_string());
            }
        }
    }

    let mut srcs: HashMap<String, Result<Src, String>> = HashMap::new();
    let mut out = String::new();
    let mut fns_report: Vec<Value> = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let t = lines[i].trim_start();
        if let Some(rest) = t.strip_prefix("//@item ") {
            let kv = parse_kv(rest);
            let src_path = kv["src"].clone();
            let mut rewrites = Vec::new();
            while i + 1 < lines.len() && lines[i + 1].trim_start().starts_with("//@rewrite ") {
                i += 1;
                let r = lines[i].trim_start().strip_prefix("//@rewrite ").unwrap();
                if let Some((a, b)) = r.split_once(" => ") {
                    rewrites.push((a.trim().to_string(), b.trim().to_string()));
                }
            }
            let s = srcs.entry(src_path.clone()).or_insert_with(|| Src::load(&format!("{repo}/{src_path}")));
            let mut rep = json!({"kind": "item", "src": src_path, "item": kv["item"], "status": "ok"});
            match s {
                Err(e) => {
                    rep["status"] = json!("lost");
                    rep["reason"] = json!(e);
                }
                Ok(s) => match extract_item(s, &kv["item"]) {
                    None => {
                        rep["status"] = json!("lost");
                        rep["reason"] = json!("item not found");
                    }
                    Some(mut txt) => {
                        for (a, b) in &rewrites {
                            let re = Regex::new(a).unwrap();
                            txt = re.replace_all(&txt, b.as_str()).to_string();
                        }
                        rep["text_hash"] = json!(fnv(&normalize(&txt)));
                        out.push_str(&txt);
                        out.push('\n');
                    }
                },
            }
            fns_report.push(rep);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@fn ") {
            let kv = parse_kv(rest);
            let mut d = FnDir { src: kv["src"].clone(), item: kv["item"].clone(), opts: kv.clone(), ..Default::default() };
            i += 1;
            let mut mode = String::new();
            let mut buf = String::new();
            let mut flush = |mode: &str, buf: &mut String, d: &mut FnDir| {
                let b = std::mem::take(buf);
                if mode == "spec" {
                    d.spec.push_str(&b);
                } else if let Some(k) = mode.strip_prefix("loop ") {
                    d.loops.insert(k.trim().parse().unwrap(), b);
                } else if let Some(k) = mode.strip_prefix("at ") {
                    d.ats.push((k.trim().to_string(), b));
                } else if let Some(k) = mode.strip_prefix("at? ") {
                    d.ats.push((format!("?{}", k.trim()), b));
                }
            };
            while i < lines.len() {
                let t = lines[i].trim_start();
                if t.starts_with("//@end") {
                    flush(&mode, &mut buf, &mut d);
                    break;
                } else if let Some(r) = t.strip_prefix("//@rewrite ") {
                    flush(&mode, &mut buf, &mut d);
                    mode.clear();
                    let (a, b) = r.split_once(" =>").unwrap();
                    d.rewrites.push((a.trim().to_string(), b.trim().to_string(), true));
                } else if let Some(r) = t.strip_prefix("//@rewrite? ") {
                    flush(&mode, &mut buf, &mut d);
                    mode.clear();
                    let (a, b) = r.split_once(" =>").unwrap();
                    d.rewrites.push((a.trim().to_string(), b.trim().to_string(), false));
                } else if let Some(r) = t.strip_prefix("//@forname ") {
                    flush(&mode, &mut buf, &mut d);
                    mode.clear();
                    let (a, b) = r.trim().split_once(' ').unwrap();
                    d.fornames.insert(a.parse().unwrap(), b.trim().to_string());
                } else if let Some(r) = t.strip_prefix("//@") {
                    flush(&mode, &mut buf, &mut d);
                    mode = r.trim().to_string();
                } else {
                    buf.push_str(lines[i]);
                    buf.push('\n');
                }
                i += 1;
            }
            i += 1; // past end
            let s = srcs.entry(d.src.clone()).or_insert_with(|| Src::load(&format!("{repo}/{}", d.src)));
            let key = format!("{}#{}", d.src, d.item);
            let start_line = out.lines().count() + 1;
            let mut rep = json!({"kind": "fn", "src": d.src, "item": d.item, "status": "ok"});
            match s {
                Err(e) => {
                    rep["status"] = json!("lost");
                    rep["reason"] = json!(e);
                }
                Ok(s) => match (if demote.contains(&d.item) { Err("not accepted by the verifier's front end".to_string()) } else { extract_fn(s, &d, &vacuity, lock.get(&key), &known) }) {
                    Err(e) => {
                        rep["status"] = json!("lost");
                        rep["reason"] = json!(e);
                        if let Some(t) = stub_fn(s, &d) {
                            out.push_str(&t);
                            out.push('\n');
                            rep["stubbed"] = json!(true);
                        }
                    }
                    Ok((txt, lk, info)) => {
                        out.push_str(&txt);
                        out.push('\n');
                        new_lock.insert(key, lk);
                        for (k, v) in info.as_object().unwrap() {
                            rep[k] = v.clone();
                        }
                    }
                },
            }
            rep["out_start"] = json!(start_line);
            rep["out_end"] = json!(out.lines().count());
            fns_report.push(rep);
            continue;
        }
        out.push_str(lines[i]);
        out.push('\n');
        i += 1;
    }
    std::fs::write(out_path, out).unwrap();
    std::fs::write(report_path, serde_json::to_string_pretty(&json!({"items": fns_report})).unwrap()).unwrap();
    if write_lock {
        if let Some(p) = lock_path {
            std::fs::write(p, serde_json::to_string_pretty(&Value::Object(new_lock)).unwrap() + "\n").unwrap();
        }
    }
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}
fn normalize(s: &str) -> String {
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

fn extract_item(s: &Src, item: &str) -> Option<String> {
    let mut items = Vec::new();
    all_items(&s.file.items, &mut items);
    let (kind, name) = item.split_once(' ')?;
    for it in items {
        let (attrs, id, k): (&[syn::Attribute], String, &str) = match it {
            syn::Item::Struct(x) => (&x.attrs, x.ident.to_string(), "struct"),
            syn::Item::Enum(x) => (&x.attrs, x.ident.to_string(), "enum"),
            syn::Item::Const(x) => (&x.attrs, x.ident.to_string(), "const"),
            syn::Item::Static(x) => (&x.attrs, x.ident.to_string(), "static"),
            syn::Item::Type(x) => (&x.attrs, x.ident.to_string(), "type"),
            syn::Item::Macro(x) => (&x.attrs, x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), "macro"),
            _ => continue,
        };
        if k != kind || id != name {
            continue;
        }
        let (a, b) = s.range(it.span());
        let mut txt = s.text[a..b].to_string();
        // drop every attribute (derives, serde helpers, doc comments), inner ones included
        let mut cuts: Vec<(usize, usize)> = attrs.iter().map(|x| s.range(x.span())).collect();
        struct A<'a>(&'a Src, Vec<(usize, usize)>);
        impl<'a, 'ast> Visit<'ast> for A<'a> {
            fn visit_attribute(&mut self, n: &'ast syn::Attribute) {
                self.1.push(self.0.range(n.span()));
            }
        }
        let mut v = A(s, vec![]);
        v.visit_item(it);
        cuts.extend(v.1);
        cuts.sort();
        cuts.dedup();
        for (x, y) in cuts.into_iter().rev() {
            if x >= a && y <= b {
                txt.replace_range(x - a..y - a, "");
            }
        }
        return Some(txt);
    }
    None
}

fn extract_fn(
    s: &Src,
    d: &FnDir,
    vacuity: &str,
    lock: Option<&Value>,
    known: &HashSet<String>,
) -> Result<(String, Value, Value), String> {
    let f = find_fn(&s.file, &d.item).ok_or_else(|| "function not found".to_string())?;
    let mut facts = Facts::default();
    for inp in &f.sig.inputs {
        facts.visit_fn_arg(inp);
    }
    facts.visit_block(f.block);

    // helper functions of the same file that have no contract in this unit
    let same_file = all_fn_names(&s.file);
    let mut unknown: Vec<String> = facts
        .calls
        .iter()
        .map(|c| c.0.clone())
        .filter(|n| same_file.contains(n) && !known.contains(n))
        .collect();
    unknown.sort();
    unknown.dedup();
    if !unknown.is_empty() {
        return Err(format!("calls helper(s) without a contract in this unit: {}", unknown.join(", ")));
    }

    let kinds: Vec<&str> = facts.loops.iter().map(|l| l.kind).collect();
    let mut rename = HashMap::new();
    if let Some(l) = lock {
        let lk: Vec<&str> = l["loops"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
        if lk != kinds && (!d.loops.is_empty() || d.ats.iter().any(|a| a.0.contains("loop"))) {
            return Err(format!("loop structure changed: {:?} -> {:?}", lk, kinds));
        }
        let lb: Vec<String> = l["binds"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        if lb.len() == facts.binds.len() {
            let mut conflict = HashSet::new();
            for (a, b) in lb.iter().zip(&facts.binds) {
                if a != b {
                    if let Some(p) = rename.insert(a.clone(), b.clone()) {
                        if &p != b {
                            conflict.insert(a.clone());
                        }
                    }
                }
            }
            // an old name still in use under its own name elsewhere is not renamed
            for (a, b) in lb.iter().zip(&facts.binds) {
                if a == b && rename.contains_key(a) {
                    conflict.insert(a.clone());
                }
            }
            for c in conflict {
                rename.remove(&c);
            }
        }
    }
    // closures and loops that are not in the code the unit was written for have no contract, nothing follows from them
    let more = |k: usize, n: Option<usize>| n.map(|n| k > n).unwrap_or(false);
    let no_contract = more(facts.closures, lock.and_then(|l| l["closures"].as_u64()).map(|x| x as usize))
        || more(kinds.len(), lock.and_then(|l| l["loops"].as_array()).map(|a| a.len()));
    let sub = |t: &str| subst_names(t, &rename);

    let mut edits: Vec<Edit> = Vec::new();
    let mut dropped: Vec<String> = Vec::new();
    // attributes
    for a in f.attrs {
        let r = s.range(a.span());
        edits.push(Edit { start: r.0, end: r.1, text: String::new(), prio: 0 });
    }
    for inp in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = inp {
            for a in &t.attrs {
                let r = s.range(a.span());
                edits.push(Edit { start: r.0, end: r.1, text: String::new(), prio: 0 });
            }
        }
    }
    struct Attrs<'a>(&'a Src, Vec<(usize, usize)>);
    impl<'a, 'ast> Visit<'ast> for Attrs<'a> {
        fn visit_attribute(&mut self, n: &'ast syn::Attribute) {
            self.1.push(self.0.range(n.span()));
        }
    }
    let mut av = Attrs(s, vec![]);
    av.visit_block(f.block);
    for r in av.1 {
        dropped.push(s.text[r.0..r.1].to_string());
        edits.push(Edit { start: r.0, end: r.1, text: String::new(), prio: 0 });
    }
    for m in &facts.log_macros {
        let r = (s.off(m.0), s.off(m.1));
        dropped.push(s.text[r.0..r.1].split_whitespace().collect::<Vec<_>>().join(" "));
        edits.push(Edit { start: r.0, end: r.1, text: String::new(), prio: 0 });
    }
    // return value name
    let rname = d.opts.get("ret").cloned().unwrap_or("ret".into());
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        let r = s.range(t.span());
        edits.push(Edit { start: r.0, end: r.0, text: format!("({rname}: "), prio: 0 });
        edits.push(Edit { start: r.1, end: r.1, text: ")".into(), prio: -10 });
    }
    let (bs, be) = s.range(f.block.span());
    edits.push(Edit { start: bs, end: bs, text: format!("\n{}\n", sub(&d.spec)), prio: 0 });
    let mut fn_start = String::new();
    if vacuity == "fn" {
        fn_start.push_str(" proof { assert(false); } ");
    }
    for (w, t) in &d.ats {
        let soft = w.starts_with('?');
        let words: Vec<&str> = w.trim_start_matches('?').split_whitespace().collect();
        let t = format!("\n{}", sub(t));
        let get_loop = |k: &str| -> Result<&LoopInfo, String> {
            facts.loops.get(k.parse::<usize>().unwrap()).ok_or_else(|| format!("loop {k} not found"))
        };
        match words[0] {
            "fn_start" => fn_start.push_str(&t),
            "fn_end" => {
                // before the tail expression, or before the closing brace
                let p = match f.block.stmts.last() {
                    Some(st @ syn::Stmt::Expr(_, None)) => s.range(st.span()).0,
                    _ => be - 1,
                };
                edits.push(Edit { start: p, end: p, text: format!("{t} "), prio: 5 });
            }
            "loop_start" => {
                let l = get_loop(words[1])?;
                let p = s.off(l.body_open) + 1;
                edits.push(Edit { start: p, end: p, text: t, prio: 6 });
            }
            "loop_end" => {
                let l = get_loop(words[1])?;
                let p = s.off(l.body_close);
                edits.push(Edit { start: p, end: p, text: t, prio: 0 });
            }
            "before_loop" => {
                let l = get_loop(words[1])?;
                // labels/`let x = loop` are not handled: insert before the enclosing statement
                let p = enclosing_stmt(s, &facts, s.off(l.start), s.off(l.end)).map(|r| r.0).unwrap_or(s.off(l.start));
                edits.push(Edit { start: p, end: p, text: format!("{t} "), prio: 0 });
            }
            "after_loop" => {
                let l = get_loop(words[1])?;
                let p = enclosing_stmt(s, &facts, s.off(l.start), s.off(l.end)).map(|r| r.1).unwrap_or(s.off(l.end));
                edits.push(Edit { start: p, end: p, text: format!("{t} "), prio: 0 });
            }
            "before_call" | "after_call" => {
                let name = words[1];
                let k: usize = words[2].parse().unwrap();
                let mut cs: Vec<(usize, usize)> = facts.calls.iter().filter(|c| c.0 == name).map(|c| (s.off(c.1 .0), s.off(c.1 .1))).collect();
                cs.sort_by_key(|c| (c.1, c.0));
                let c = match cs.get(k) {
                    Some(c) => c,
                    // `//@at? ..`: the hint is left out
                    None if soft => continue,
                    None => return Err(format!("call {name} #{k} not found")),
                };
                let st = enclosing_stmt(s, &facts, c.0, c.1).ok_or("no enclosing statement")?;
                let p = if words[0] == "before_call" { st.0 } else { st.1 };
                edits.push(Edit { start: p, end: p, text: format!("{t} "), prio: 3 });
            }
            x => return Err(format!("unknown anchor {x}")),
        }
    }
    let p = bs + 1;
    edits.push(Edit { start: p, end: p, text: fn_start, prio: 0 });
    let mut used_loops = 0;
    let desugar: HashSet<usize> = d.opts.get("desugar_for").map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect()).unwrap_or_default();
    for (k, l) in facts.loops.iter().enumerate() {
        let bo = s.off(l.body_open);
        if desugar.contains(&k) && l.for_parts.is_some() {
            let (pat, ex) = l.for_parts.unwrap();
            let pt = &s.text[s.off(pat.0)..s.off(pat.1)];
            let et = s.text[s.off(ex.0)..s.off(ex.1)].trim().trim_start_matches("&mut ").to_string();
            let st = s.off(l.start);
            edits.push(Edit { start: st, end: s.off(ex.1), text: format!("while let Some({pt}) = {et}.next()"), prio: 0 });
            dropped.push(format!("`for {pt} in &mut {et}` written as `while let Some({pt}) = {et}.next()`"));
        }
        if let Some(n) = d.fornames.get(&k) {
            if let Some(p) = l.in_kw_end {
                let p = s.off(p);
                edits.push(Edit { start: p, end: p, text: format!(" {n}:"), prio: 0 });
            }
        }
        if let Some(inv) = d.loops.get(&k) {
            used_loops += 1;
            edits.push(Edit { start: bo, end: bo, text: format!("\n{}\n", sub(inv)), prio: 0 });
            if vacuity == "loop" {
                edits.push(Edit { start: bo + 1, end: bo + 1, text: " proof { assert(false); } ".into(), prio: 5 });
            }
        }
    }
    if used_loops != d.loops.len() {
        return Err("annotated loop not found".into());
    }
    edits.sort_by_key(|e| (e.start, e.end > e.start, e.prio));
    let mut chains = HashMap::new();
    for c in &facts.let_chains {
        chains.insert(s.range(c.span()).0, c.clone());
    }
    if !chains.is_empty() {
        dropped.push(format!("{} let-chain(s) written as nested ifs", chains.len()));
    }
    let rd = Renderer { src: s, edits, chains };
    let fstart = f
        .attrs
        .first()
        .map(|a| s.range(a.span()).0)
        .or_else(|| {
            f.vis.and_then(|v| {
                let sp = v.span();
                if matches!(v, syn::Visibility::Inherited) { None } else { Some(s.range(sp).0) }
            })
        })
        .unwrap_or_else(|| s.range(f.sig.span()).0);
    let mut txt = rd.render(fstart, be);
    let raw = s.text[fstart..be].to_string();
    let mut rws = Vec::new();
    for (a, b, must) in &d.rewrites {
        let re = Regex::new(a).map_err(|e| e.to_string())?;
        let n = re.find_iter(&txt).count();
        if n == 0 && *must {
            return Err(format!("rewrite pattern not found: {a}"));
        }
        if n > 0 {
            rws.push(format!("{a} => {b} ({n}x)"));
        }
        txt = re.replace_all(&txt, b.as_str()).to_string();
    }
    let line = f.sig.span().start().line;
    let lk = json!({"loops": kinds, "binds": facts.binds, "closures": facts.closures});
    let clauses = count_clauses(&d.spec) + d.loops.values().map(|l| count_clauses(l)).sum::<usize>();
    let info = json!({
        "line": line, "dropped": dropped, "rewrites": rws, "renamed": rename,
        "no_contract": no_contract, "raw_hash": fnv(&normalize(&raw)), "loops": kinds.len(), "annotated_loops": used_loops, "clauses": clauses,
    });
    Ok((txt, lk, info))
}

/// contract without body: stands in for a function whose body could not be taken over
fn stub_fn(s: &Src, d: &FnDir) -> Option<String> {
    let f = find_fn(&s.file, &d.item)?;
    let mut sig = String::new();
    if let Some(v) = f.vis {
        if !matches!(v, syn::Visibility::Inherited) {
            let r = s.range(v.span());
            sig.push_str(&s.text[r.0..r.1]);
            sig.push(' ');
        }
    }
    let (a, b) = s.range(f.sig.span());
    let rname = d.opts.get("ret").cloned().unwrap_or("ret".into());
    match &f.sig.output {
        syn::ReturnType::Type(_, t) => {
            let r = s.range(t.span());
            sig.push_str(&s.text[a..r.0]);
            sig.push_str(&format!("({rname}: {})", &s.text[r.0..r.1]));
            sig.push_str(&s.text[r.1..b]);
        }
        _ => sig.push_str(&s.text[a..b]),
    }
    let mut txt = format!("#[verifier::external_body]\n{sig}");
    for (a, b, _) in &d.rewrites {
        if let Ok(re) = Regex::new(a) {
            txt = re.replace_all(&txt, b.as_str()).to_string();
        }
    }
    txt.push_str(&format!("\n{}\n{{ unimplemented!() }}\n", d.spec));
    Some(txt)
}

fn count_clauses(s: &str) -> usize {
    // top-level comma separated clauses, roughly
    let mut depth = 0i32;
    let mut n = 0;
    let mut pending = false;
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                if pending {
                    n += 1;
                }
                pending = false;
                continue;
            }
            _ => {}
        }
        if !c.is_whitespace() {
            pending = true;
        }
    }
    if pending {
        n += 1;
    }
    n
}

fn enclosing_stmt(s: &Src, f: &Facts, a: usize, b: usize) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for st in &f.stmts {
        let r = (s.off(st.0), s.off(st.1));
        if r.0 <= a && r.1 >= b {
            if best.map(|x| r.1 - r.0 < x.1 - x.0).unwrap_or(true) {
                best = Some(r);
            }
        }
    }
    best
}
