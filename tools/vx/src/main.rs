//! vx: mechanical extraction of Rust items from /repo into a Verus unit.
//!
//! `vx TEMPLATE REPO OUT.rs MAP.json [--vacuity]`
//!
//! The template is a Verus source file with directives (`//@...`).  Everything outside of the
//! directives is copied verbatim.  A directive names an item of the repository; its source text is
//! sliced out of the file *as it is now* and emitted with the given contract clauses, loop
//! invariants and proof blocks inserted between the original tokens.  What is dropped or replaced
//! (attributes, comments in signatures, listed token rewrites) is recorded in MAP.json.
//!
//! Exit codes: 0 ok, 3 anchor lost (the item, loop or statement a directive refers to is not
//! there any more), 2 usage or template error.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::Range;
use std::{env, fs, process};
use syn::spanned::Spanned;
use syn::visit::Visit;

fn lost(msg: &str) -> ! {
    eprintln!("ANCHOR-LOST {msg}");
    process::exit(3)
}
fn bad(msg: &str) -> ! {
    eprintln!("TEMPLATE-ERROR {msg}");
    process::exit(2)
}

struct Source {
    text: String,
    file: syn::File,
}

fn br(s: Span) -> Range<usize> {
    s.byte_range()
}

fn norm(ts: &TokenStream) -> String {
    let mut s = String::new();
    for t in flat(ts.clone()) {
        s.push_str(&t.0);
    }
    s
}

/// Flatten a token stream in a list of (text, byte range).
fn flat(ts: TokenStream) -> Vec<(String, Range<usize>)> {
    fn go(ts: TokenStream, out: &mut Vec<(String, Range<usize>)>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if !o.is_empty() {
                        out.push((o.into(), br(g.span_open())));
                    }
                    go(g.stream(), out);
                    if !c.is_empty() {
                        out.push((c.into(), br(g.span_close())));
                    }
                }
                TokenTree::Punct(p) => out.push((p.as_char().to_string(), br(p.span()))),
                TokenTree::Ident(i) => out.push((i.to_string(), br(i.span()))),
                TokenTree::Literal(l) => out.push((l.to_string(), br(l.span()))),
            }
        }
    }
    let mut v: Vec<(String, Range<usize>)> = Vec::new();
    go(ts, &mut v);
    // `&&` and `||` are one token
    let mut g: Vec<(String, Range<usize>)> = Vec::new();
    for t in v {
        match g.last_mut() {
            Some(l) if (t.0 == "&" || t.0 == "|") && l.0 == t.0 && l.1.end == t.1.start => {
                l.0.push_str(&t.0);
                l.1.end = t.1.end;
            }
            _ => g.push(t),
        }
    }
    g
}

enum Found<'a> {
    Fn { vis: Option<&'a syn::Visibility>, sig: &'a syn::Signature, block: &'a syn::Block, header: Option<(&'a syn::ItemImpl, String)>, attrs: &'a [syn::Attribute] , span: Span},
    Item { item: &'a syn::Item },
}

fn impl_key(i: &syn::ItemImpl) -> (String, String) {
    let ty = &i.self_ty;
    let tyn = norm(&quote::quote!(#ty));
    let full = match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", norm(&quote::quote!(#p)), tyn),
        None => tyn.clone(),
    };
    let short_ty = short(&tyn);
    let shortk = match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", short(&norm(&quote::quote!(#p))), short_ty),
        None => short_ty,
    };
    (full, shortk)
}
fn short(s: &str) -> String {
    let s = s.trim_start_matches('&');
    let s = s.split('<').next().unwrap();
    s.rsplit("::").next().unwrap().to_string()
}

fn items_of_block(b: &syn::Block) -> Vec<&syn::Item> {
    // items declared anywhere in a function body
    struct V<'a>(Vec<&'a syn::Item>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_item(&mut self, i: &'a syn::Item) {
            self.0.push(i)
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

fn all_items(items: &[syn::Item]) -> Vec<&syn::Item> {
    let mut v = Vec::new();
    for i in items {
        if let syn::Item::Mod(m) = i {
            // skip test modules
            if m.attrs.iter().any(|a| norm(&quote::quote!(#a)).contains("cfg(test)")) {
                continue;
            }
            if let Some((_, it)) = &m.content {
                v.extend(all_items(it));
            }
        }
        v.push(i);
    }
    v
}

fn find_fn<'a>(items: Vec<&'a syn::Item>, path: &str, filter: &Option<String>) -> Option<Found<'a>> {
    // path: `name`, `KEY::name` where KEY is an impl key, or outer/inner
    if let Some((outer, inner)) = path.split_once('/') {
        let f = find_fn(items, outer, filter)?;
        if let Found::Fn { block, .. } = f {
            return find_fn(items_of_block(block), inner, filter);
        }
        return None;
    }
    let (key, name) = match path.rfind("::") {
        Some(k) => (Some(path[..k].to_string()), &path[k + 2..]),
        None => (None, path),
    };
    let mut found: Vec<Found<'a>> = Vec::new();
    for it in items {
        match (it, &key) {
            (syn::Item::Fn(f), None) if f.sig.ident == name => found.push(Found::Fn { vis: Some(&f.vis), sig: &f.sig, block: &f.block, header: None, attrs: &f.attrs, span: f.span() }),
            (syn::Item::Impl(i), Some(k)) => {
                let (full, shortk) = impl_key(i);
                if full == *k || shortk == *k {
                    let hdr = {
                        let g = &i.generics;
                        let (w, ty) = (&g.where_clause, &i.self_ty);
                        let tr = i.trait_.as_ref().map(|t| { let p = &t.1; quote::quote!(#p for) });
                        norm(&quote::quote!(impl #g #tr #ty #w))
                    };
                    if let Some(f) = filter {
                        let f: String = f.chars().filter(|c| !c.is_whitespace()).collect();
                        if !hdr.contains(&f) {
                            continue;
                        }
                    }
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                found.push(Found::Fn { vis: Some(&f.vis), sig: &f.sig, block: &f.block, header: Some((i, String::new())), attrs: &f.attrs, span: f.span() });
                            }
                        }
                    }
                }
            }
            (syn::Item::Trait(t), Some(k)) if t.ident == k => {
                // a default method: needs a `header:` for the implementation it is verified for
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let (true, Some(block)) = (f.sig.ident == name, &f.default) {
                            found.push(Found::Fn { vis: None, sig: &f.sig, block, header: None, attrs: &f.attrs, span: f.span() });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if found.len() > 1 {
        lost(&format!("ambiguous function `{path}` ({} candidates)", found.len()));
    }
    found.pop()
}

fn find_item<'a>(items: Vec<&'a syn::Item>, path: &str, kind: &str) -> Option<Found<'a>> {
    if let Some((outer, inner)) = path.split_once('/') {
        let f = find_fn(items, outer, &None)?;
        if let Found::Fn { block, .. } = f {
            return find_item(items_of_block(block), inner, kind);
        }
        return None;
    }
    for it in items {
        let ok = match (it, kind) {
            (syn::Item::Struct(s), "struct") => s.ident == path,
            (syn::Item::Enum(s), "enum") => s.ident == path,
            (syn::Item::Type(s), "type") => s.ident == path,
            (syn::Item::Const(s), "const") => s.ident == path,
            (syn::Item::Trait(s), "trait") => s.ident == path,
            _ => false,
        };
        if ok {
            return Some(Found::Item { item: it });
        }
    }
    None
}

struct LoopInfo {
    start: usize, // offset of the loop expression
    body_open: usize,  // offset just before `{`
    body_start: usize, // just after `{`
    body_end: usize,   // just before `}`
    for_expr: Option<usize>, // offset of the iterated expression of a `for`
    for_head: Option<(usize, Range<usize>)>, // offset of `for`, range of its pattern
    desc: String,
}

struct Loops(Vec<LoopInfo>);
impl<'a> Visit<'a> for Loops {
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let fh = match e {
            syn::Expr::ForLoop(w) if w.label.is_none() => Some((br(w.for_token.span()).start, br(w.pat.span()))),
            _ => None,
        };
        let (b, fe, d) = match e {
            syn::Expr::While(w) => (Some(&w.body), None, "while"),
            syn::Expr::Loop(w) => (Some(&w.body), None, "loop"),
            syn::Expr::ForLoop(w) => (Some(&w.body), Some(br(w.expr.span()).start), "for"),
            _ => (None, None, ""),
        };
        if let Some(b) = b {
            let o = br(b.brace_token.span.open());
            let c = br(b.brace_token.span.close());
            self.0.push(LoopInfo { start: br(e.span()).start, body_open: o.start, body_start: o.end, body_end: c.start, for_expr: fe, for_head: fh, desc: d.into() });
        }
        syn::visit::visit_expr(self, e)
    }
    fn visit_macro(&mut self, _: &'a syn::Macro) {}
}

/// Collects the byte ranges of all statements (recursively).
struct Stmts(Vec<Range<usize>>);
impl<'a> Visit<'a> for Stmts {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let r = br(s.span());
        self.0.push(r);
        syn::visit::visit_stmt(self, s)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

#[derive(Default, Debug)]
struct Directive {
    kind: String,
    args: Vec<String>,
    /// (key, text)
    sections: Vec<(String, String)>,
}

impl Directive {
    fn get(&self, k: &str) -> Option<&str> {
        self.sections.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str())
    }
}

struct Edit {
    at: usize,
    end: usize,
    text: String,
    seq: usize,
}

/// token rewrite with metavariables: `$x` matches one token (or a balanced group), `$$x` a lazy
/// sequence of tokens at the same nesting level.
fn tokenize_pat(p: &str) -> Vec<String> {
    // `$x` -> marker
    let q = p.replace("$$", "__SEQ_").replace('$', "__TOK_");
    let ts: TokenStream = q.parse().unwrap_or_else(|e| bad(&format!("bad rewrite pattern `{p}`: {e}")));
    flat(ts).into_iter().map(|t| t.0).collect()
}
fn balanced_end(toks: &[(String, Range<usize>)], i: usize) -> usize {
    // index after the token (group) starting at i
    let mut depth = 0i32;
    let mut j = i;
    loop {
        match toks[j].0.as_str() {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => depth -= 1,
            _ => {}
        }
        j += 1;
        if depth <= 0 || j >= toks.len() {
            return j;
        }
    }
}
fn match_at(toks: &[(String, Range<usize>)], i: usize, pat: &[String], pi: usize, caps: &mut HashMap<String, (usize, usize)>) -> Option<usize> {
    if pi == pat.len() {
        return Some(i);
    }
    let p = &pat[pi];
    if let Some(n) = p.strip_prefix("__TOK_") {
        if i >= toks.len() || matches!(toks[i].0.as_str(), ")" | "]" | "}") {
            return None;
        }
        let e = balanced_end(toks, i);
        caps.insert(n.into(), (i, e));
        return match_at(toks, e, pat, pi + 1, caps);
    }
    if let Some(n) = p.strip_prefix("__SEQ_") {
        let mut e = i;
        if pi + 1 == pat.len() {
            // at the end of a pattern: the rest of the expression
            while e < toks.len() && !matches!(toks[e].0.as_str(), ")" | "]" | "}" | "," | ";") {
                e = balanced_end(toks, e);
            }
            caps.insert(n.into(), (i, e));
            return Some(e);
        }
        loop {
            let mut c2 = caps.clone();
            c2.insert(n.into(), (i, e));
            if let Some(r) = match_at(toks, e, pat, pi + 1, &mut c2) {
                *caps = c2;
                return Some(r);
            }
            if e >= toks.len() || matches!(toks[e].0.as_str(), ")" | "]" | "}") {
                return None;
            }
            e = balanced_end(toks, e);
        }
    }
    if i < toks.len() && toks[i].0 == *p {
        match_at(toks, i + 1, pat, pi + 1, caps)
    } else {
        None
    }
}

/// `$$x` and `$x` in a replacement: (start, end, name), in order.
fn references(b: &str, caps: &HashMap<String, (usize, usize)>) -> Vec<(usize, usize, String)> {
    let mut names: Vec<_> = caps.keys().cloned().collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    let mut out = vec![];
    let mut i = 0;
    while let Some(p) = b[i..].find('$') {
        let at = i + p;
        let start = at + if b[at..].starts_with("$$") { 2 } else { 1 };
        match names.iter().find(|n| b[start..].starts_with(n.as_str())) {
            Some(n) => {
                out.push((at, start + n.len(), n.clone()));
                i = start + n.len();
            }
            None => i = start,
        }
    }
    out
}

fn apply_edits(text: &str, base: Range<usize>, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.at, e.end, e.seq));
    let mut out = String::new();
    let mut pos = base.start;
    for e in edits {
        if e.at < pos {
            bad("overlapping edits");
        }
        out.push_str(&text[pos..e.at]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&text[pos..base.end]);
    out
}

fn main() {
    let args: Vec<String> = env::args().collect();
    if args.len() < 5 {
        bad("usage: vx TEMPLATE REPO OUT MAP [--vacuity]");
    }
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let tmpl_path = std::path::PathBuf::from(&args[1]);
    let repo = std::path::PathBuf::from(&args[2]);
    let mut sources: HashMap<String, Source> = HashMap::new();
    let mut out = String::new();
    let mut fns = Vec::new();
    let mut dropped: Vec<serde_json::Value> = Vec::new();

    // includes
    fn load(path: &std::path::Path, lines: &mut Vec<String>, vars: &mut Vec<(String, String)>, depth: usize) {
        let t = fs::read_to_string(path).unwrap_or_else(|e| bad(&format!("{}: {e}", path.display())));
        if depth > 5 {
            bad("include depth")
        }
        for l in t.lines() {
            let mut l = l.to_string();
            for (k, v) in vars.iter() {
                l = l.replace(&format!("@{{{k}}}"), v);
            }
            if let Some(p) = l.trim_start().strip_prefix("//@include ") {
                load(&path.parent().unwrap().join(p.trim()), lines, vars, depth + 1);
            } else if let Some(kv) = l.trim_start().strip_prefix("//@set ") {
                // `//@set NAME text`: `@{NAME}` stands for the text from here on; the first setting wins
                let (k, v) = kv.split_once(' ').unwrap_or((kv, ""));
                if !vars.iter().any(|(n, _)| n == k) {
                    vars.push((k.to_string(), v.to_string()));
                }
            } else {
                lines.push(l);
            }
        }
    }
    let mut lines = Vec::new();
    load(&tmpl_path, &mut lines, &mut Vec::new(), 0);

    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if !l.starts_with("//@") {
            out.push_str(&lines[i]);
            out.push('\n');
            i += 1;
            continue;
        }
        // parse the directive
        let rest = l[3..].trim();
        let (kind, tail) = rest.split_once(' ').unwrap_or((rest, ""));
        let mut d = Directive { kind: kind.into(), ..Default::default() };
        d.args = tail.split_whitespace().map(|s| s.to_string()).collect();
        i += 1;
        loop {
            if i >= lines.len() {
                bad("missing //@end");
            }
            let l = lines[i].trim();
            if l == "//@end" {
                i += 1;
                break;
            }
            if let Some(s) = l.strip_prefix("//@") {
                let s = s.trim();
                if let Some(k) = s.strip_suffix(':') {
                    d.sections.push((k.trim().to_string(), String::new()));
                } else if let Some((k, v)) = s.split_once(": ") {
                    d.sections.push((k.trim().to_string(), v.to_string()));
                } else {
                    bad(&format!("bad directive line `{s}`"));
                }
            } else {
                match d.sections.last_mut() {
                    Some((_, t)) => {
                        t.push_str(&lines[i]);
                        t.push('\n');
                    }
                    None => {
                        if !l.is_empty() {
                            bad(&format!("text outside of a section: `{l}`"))
                        }
                    }
                }
            }
            i += 1;
        }

        let (file, path) = match d.kind.as_str() {
            "fn" => (d.args[0].clone(), d.args[1..].join(" ")),
            "item" => (d.args[0].clone(), d.args[2..].join(" ")),
            k => bad(&format!("unknown directive `{k}`")),
        };
        if !sources.contains_key(&file) {
            let text = match fs::read_to_string(repo.join(&file)) {
                Ok(t) => t,
                Err(_) => lost(&format!("file {file} not found")),
            };
            let parsed = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(e) => lost(&format!("{file} does not parse: {e}")),
            };
            sources.insert(file.clone(), Source { text, file: parsed });
        }
        let src = &sources[&file];
        let items = all_items(&src.file.items);
        let filter = d.get("impl_has").map(|s| s.to_string());
        let found = if d.kind == "fn" { path.split('|').find_map(|p| find_fn(items.clone(), p.trim(), if p.contains("for") || !path.contains('|') { &filter } else { &None })) } else { find_item(items, &path, &d.args[1]) };
        let found = match found {
            Some(f) => f,
            None => lost(&format!("{} `{path}` not found in {file}", d.kind)),
        };

        let mut edits: Vec<Edit> = Vec::new();
        fn push(edits: &mut Vec<Edit>, at: usize, end: usize, text: String) {
            let seq = edits.len();
            edits.push(Edit { at, end, text, seq });
        }
        let do_rewrites = |edits: &mut Vec<Edit>, toks: &[(String, Range<usize>)], dropped: &mut Vec<serde_json::Value>| {
            for (k, v) in &d.sections {
                if k != "rewrite" && k != "rewrite!" {
                    continue;
                }
                let (a, b) = v.split_once("=>>").unwrap_or_else(|| bad(&format!("rewrite without =>>: {v}")));
                let pat = tokenize_pat(a.trim());
                let b = b.trim();
                let mut n = 0;
                // what a rewrite keeps of the text stays in place, so that it can be rewritten (and
                // annotated) further; only the text around it is replaced
                for ti in 0..toks.len() {
                    let mut caps = HashMap::new();
                    let e = match match_at(toks, ti, &pat, 0, &mut caps) {
                        Some(e) if e > ti => e,
                        _ => continue,
                    };
                    let text_of = |nme: &str| {
                        let (s, t) = caps[nme];
                        if t > s { &src.text[toks[s].1.start..toks[t - 1].1.end] } else { "" }
                    };
                    let refs = references(b, &caps);
                    // captures in source order
                    let mut order: Vec<(&String, (usize, usize))> = caps.iter().map(|(k, v)| (k, *v)).filter(|(_, (s, t))| t > s).collect();
                    order.sort_by_key(|(_, r)| *r);
                    // (position in the replacement, capture) of the texts left in place
                    let mut kept: Vec<(usize, usize, (usize, usize))> = vec![];
                    for (nme, r) in order {
                        if let Some((at, end, _)) = refs.iter().rev().find(|(_, _, n)| n == nme) {
                            if kept.last().map_or(true, |l| l.1 <= *at) {
                                kept.push((*at, *end, r));
                            }
                        }
                    }
                    let fill = |from: usize, to: usize| {
                        let mut out = String::new();
                        let mut pos = from;
                        for (at, end, nme) in refs.iter().filter(|r| r.0 >= from && r.1 <= to) {
                            out.push_str(&b[pos..*at]);
                            out.push_str(text_of(nme));
                            pos = *end;
                        }
                        out.push_str(&b[pos..to]);
                        out
                    };
                    let mut new: Vec<(usize, usize, String)> = vec![];
                    let (mut src_pos, mut rep_pos) = (toks[ti].1.start, 0);
                    for (at, end, (s, t)) in kept {
                        new.push((src_pos, toks[s].1.start, fill(rep_pos, at)));
                        src_pos = toks[t - 1].1.end;
                        rep_pos = end;
                    }
                    new.push((src_pos, toks[e - 1].1.end, fill(rep_pos, b.len())));
                    // the first listed rewrite of a piece of text wins
                    let taken = new.iter().any(|(at, end, _)| edits.iter().any(|o| o.at < *end && *at < o.end));
                    if taken {
                        continue;
                    }
                    for (at, end, t) in new {
                        if at < end || !t.is_empty() {
                            push(edits, at, end, t);
                        }
                    }
                    n += 1;
                }
                if n == 0 && k == "rewrite!" {
                    lost(&format!("rewrite anchor `{}` not found in `{path}`", a.trim()));
                }
                if n > 0 {
                    dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": a.trim(), "into": b, "times": n}));
                }
            }
        };
        match found {
            Found::Item { item } => {
                let sp = br(item.span());
                let attrs: &[syn::Attribute] = match item {
                    syn::Item::Struct(s) => &s.attrs,
                    syn::Item::Enum(s) => &s.attrs,
                    syn::Item::Type(s) => &s.attrs,
                    syn::Item::Const(s) => &s.attrs,
                    syn::Item::Trait(s) => &s.attrs,
                    _ => &[],
                };
                let mut start = sp.start;
                for a in attrs {
                    start = start.max(br(a.span()).end);
                }
                // inner attributes (docs, serde) of fields and variants are dropped
                struct A(Vec<Range<usize>>);
                impl<'a> Visit<'a> for A {
                    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
                        self.0.push(br(a.span()));
                    }
                }
                let mut a = A(vec![]);
                a.visit_item(item);
                for r in a.0 {
                    if r.start >= start {
                        push(&mut edits, r.start, r.end, String::new());
                    }
                }
                let toks: Vec<_> = flat(quote::quote!(#item)).into_iter().filter(|t| t.1.start >= start).collect();
                do_rewrites(&mut edits, &toks, &mut dropped);
                let na: Vec<String> = attrs.iter().map(|a| quote::quote!(#a).to_string()).filter(|s| !s.starts_with("# [doc")).collect();
                dropped.push(serde_json::json!({"item": path, "file": file, "attributes_dropped": na, "attributes_added": d.get("attr").unwrap_or("")}));
                if let Some(a) = d.get("attr") {
                    out.push_str(a.trim());
                    out.push('\n');
                }
                out.push_str(apply_edits(&src.text, start..sp.end, edits).trim_start());
                out.push('\n');
            }
            Found::Fn { vis, sig, block, header, attrs, span } => {
                let whole = br(span);
                let mut start = whole.start;
                for a in attrs {
                    start = start.max(br(a.span()).end);
                }
                let _ = vis;
                let body_open = br(block.brace_token.span.open());
                let body_close = br(block.brace_token.span.close());
                // named return
                let ret = d.get("ret").map(|s| s.trim()).unwrap_or("r");
                match &sig.output {
                    syn::ReturnType::Default => {
                        if d.get("ret").is_some() && ret != "-" {
                            // unit-returning functions have no return name
                        }
                    }
                    syn::ReturnType::Type(_, ty) => {
                        if ret != "-" {
                            let t = br(ty.span());
                            let never = matches!(**ty, syn::Type::Never(_));
                            if !never {
                                push(&mut edits, t.start, t.start, format!("({ret}: "));
                                push(&mut edits, t.end, t.end, ")".into());
                            }
                        }
                    }
                }
                if let Some(s) = d.get("spec") {
                    push(&mut edits, body_open.start, body_open.start, format!("\n{s}"));
                }
                if vacuity && d.get("vacuity").map(|s| s.trim()) != Some("off") {
                    push(&mut edits, body_open.end, body_open.end, format!("\nassert(false); // VACUITY {path}\n"));
                }
                if let Some(s) = d.get("body_start") {
                    push(&mut edits, body_open.end, body_open.end, format!("\n{s}"));
                }
                if let Some(s) = d.get("body_end") {
                    push(&mut edits, body_close.start, body_close.start, format!("\n{s}"));
                }
                let mut loops = Loops(vec![]);
                loops.visit_block(block);
                if let Some(n) = d.get("loops") {
                    let n: usize = n.trim().parse().unwrap_or_else(|_| bad("loops: N"));
                    if loops.0.len() != n {
                        lost(&format!("`{path}` has {} loops, {n} expected", loops.0.len()));
                    }
                }
                let getloop = |k: &str| -> &LoopInfo {
                    let k: usize = k.trim().parse().unwrap_or_else(|_| bad("loop index"));
                    loops.0.get(k).unwrap_or_else(|| lost(&format!("loop {k} of `{path}`")))
                };
                // `for P in E { B }` over a vector of copyable items becomes a `while` over its indices
                for (k, v) in &d.sections {
                    if let Some(r) = k.strip_prefix("for_via ") {
                        // the iterated expression E becomes E followed by the text
                        let l = getloop(r);
                        if l.for_expr.is_none() {
                            lost(&format!("loop {r} of `{path}` is not a for"));
                        }
                        let v = v.trim();
                        push(&mut edits, l.body_open, l.body_open, v.to_string());
                        dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "for P in E", "into": format!("for P in E{v}")}));
                    } else if let Some(r) = k.strip_prefix("for_next ") {
                        // E is a place holding a `&mut` iterator
                        let l = getloop(r);
                        let ((f, pat), e) = match (&l.for_head, l.for_expr) {
                            (Some(h), Some(e)) => (h.clone(), e),
                            _ => lost(&format!("loop {r} of `{path}` is not a for")),
                        };
                        push(&mut edits, f, e, format!("while let Some({}) = ", &src.text[pat]));
                        push(&mut edits, l.body_open, l.body_open, ".next() ".into());
                        dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "for P in E", "into": "while let Some(P) = E.next()"}));
                    } else if let Some(r) = k.strip_prefix("for_let ") {
                        // NAME TEXT: the iterated vector is bound to NAME, its items to the ghost NAME_s
                        let l = getloop(r);
                        let ((f, pat), e) = match (&l.for_head, l.for_expr) {
                            (Some(h), Some(e)) => (h.clone(), e),
                            _ => lost(&format!("loop {r} of `{path}` is not a for")),
                        };
                        let (n, via) = v.trim().split_once(' ').unwrap_or((v.trim(), ""));
                        push(&mut edits, f, e, format!("let {n} = "));
                        push(&mut edits, l.body_open, l.body_open, format!("{via}; let ghost {n}_s = {n}@; #[verifier::loop_isolation(false)] for {} in {n}_it: {n}", &src.text[pat]));
                        dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "for P in E", "into": format!("let {n} = E{via}; for P in {n}")}));
                    } else if let Some(r) = k.strip_prefix("for_index ") {
                        let l = getloop(r);
                        let n = v.trim();
                        let ((f, pat), e) = match (&l.for_head, l.for_expr) {
                            (Some(h), Some(e)) => (h.clone(), e),
                            _ => lost(&format!("loop {r} of `{path}` is not a for")),
                        };
                        push(&mut edits, f, e, format!("{{ let {n}_v = "));
                        push(&mut edits, l.body_open, l.body_open, format!("; let mut {n}: usize = 0; while {n} < {n}_v.len()"));
                        push(&mut edits, l.body_start, l.body_start, format!("\nlet {} = {n}_v[{n}]; {n} += 1;\n", &src.text[pat]));
                        push(&mut edits, l.body_end + 1, l.body_end + 1, " }".into());
                        dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "for P in E { B }", "into": "let v = E; while over the indices of v, P bound to v[i], i incremented before B"}));
                    }
                }
                for (k, v) in &d.sections {
                    if let Some(r) = k.strip_prefix("loop_before ") {
                        let l = getloop(r);
                        push(&mut edits, l.start, l.start, format!("{v}\n"));
                    } else if let Some(r) = k.strip_prefix("loop_after ") {
                        let l = getloop(r);
                        push(&mut edits, l.body_end + 1, l.body_end + 1, format!("\n{v}"));
                    } else if let Some(r) = k.strip_prefix("loop_start ") {
                        let l = getloop(r);
                        push(&mut edits, l.body_start, l.body_start, format!("\n{v}"));
                    } else if let Some(r) = k.strip_prefix("loop_end ") {
                        let l = getloop(r);
                        let tail = !src.text[..l.body_end].trim_end().ends_with(|c| c == ';' || c == '}' || c == '{');
                        push(&mut edits, l.body_end, l.body_end, format!("{}\n{v}", if tail { ";" } else { "" }));
                    } else if let Some(r) = k.strip_prefix("loop_kind ") {
                        let l = getloop(r);
                        if l.desc != v.trim() {
                            lost(&format!("loop {r} of `{path}` is a `{}`", l.desc));
                        }
                    } else if let Some(r) = k.strip_prefix("loop_iter ") {
                        let l = getloop(r);
                        match l.for_expr {
                            Some(e) => push(&mut edits, e, e, format!("{}: ", v.trim())),
                            None => lost(&format!("loop {r} of `{path}` is not a for")),
                        }
                    } else if let Some(r) = k.strip_prefix("loop ") {
                        let l = getloop(r);
                        push(&mut edits, l.body_open, l.body_open, format!("\n{v}"));
                    } else if k.starts_with("before ") || k.starts_with("after ") || k.starts_with("before_opt ") || k.starts_with("after_opt ") {
                        // before/after `tokens`: the innermost statement that starts with (before) or contains
                        // the tokens
                        let (w, pat) = k.split_once(' ').unwrap();
                        let pat = pat.trim();
                        // `tokens`#k: the k-th occurrence
                        let (pat, mut skip) = match pat.rsplit_once("`#") {
                            Some((p, k)) => (p, k.trim().parse::<usize>().expect("occurrence")),
                            None => (pat, 0),
                        };
                        let pat = pat.trim_matches('`');
                        let pat = tokenize_pat(pat);
                        let toks = flat(quote::quote!(#block));
                        let mut pos = None;
                        for ti in 0..toks.len() {
                            let mut caps = HashMap::new();
                            if let Some(e) = match_at(&toks, ti, &pat, 0, &mut caps) {
                                if skip > 0 {
                                    skip -= 1;
                                    continue;
                                }
                                pos = Some((toks[ti].1.start, toks[e - 1].1.end));
                                break;
                            }
                        }
                        let pos = match pos {
                            Some(p) => p,
                            None if w.ends_with("_opt") => continue,
                            None => lost(&format!("statement `{k}` of `{path}`")),
                        };
                        let mut st = Stmts(vec![]);
                        st.visit_block(block);
                        let best = st.0.iter().filter(|r| r.start <= pos.0 && pos.1 <= r.end).min_by_key(|r| r.end - r.start);
                        let best = match best {
                            Some(b) => b,
                            None => lost(&format!("statement `{k}` of `{path}`")),
                        };
                        if w.starts_with("before") {
                            push(&mut edits, best.start, best.start, format!("{v}\n"));
                        } else {
                            push(&mut edits, best.end, best.end, format!("\n{v}"));
                        }
                    }
                }
                if d.get("mut_self").is_some() {
                    // `mut self` becomes `self` moved in a local `this`
                    let stoks = flat(quote::quote!(#sig));
                    let k = (1..stoks.len()).find(|&k| stoks[k - 1].0 == "mut" && stoks[k].0 == "self").unwrap_or_else(|| lost(&format!("`{path}` has no `mut self`")));
                    push(&mut edits, stoks[k - 1].1.start, stoks[k].1.end, "self".into());
                    push(&mut edits, body_open.end, body_open.end, "\nlet mut this = self;\n".into());
                    for t in flat(quote::quote!(#block)) {
                        if t.0 == "self" {
                            push(&mut edits, t.1.start, t.1.end, "this".into());
                        }
                    }
                    dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "mut self", "into": "self; let mut this = self"}));
                }
                if d.get("tail_break").is_some() {
                    // `break e` of the loop that is the tail expression of the function becomes `return e`
                    let tail = match block.stmts.last() {
                        Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) => l,
                        _ => lost(&format!("`{path}` does not end with a loop")),
                    };
                    struct B(Vec<Range<usize>>);
                    impl<'a> Visit<'a> for B {
                        fn visit_item(&mut self, _: &'a syn::Item) {}
                        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
                        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
                        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
                        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
                        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
                            if b.label.is_some() {
                                lost("labelled break");
                            }
                            self.0.push(br(b.break_token.span()));
                            syn::visit::visit_expr_break(self, b)
                        }
                    }
                    let mut b = B(vec![]);
                    b.visit_block(&tail.body);
                    let n = b.0.len();
                    for r in b.0 {
                        push(&mut edits, r.start, r.end, "return".into());
                    }
                    dropped.push(serde_json::json!({"item": path, "file": file, "rewrite": "break of the tail loop", "into": "return", "times": n}));
                }
                // tokens of signature + body for rewrites
                let mut toks = flat(quote::quote!(#vis #sig));
                toks.extend(flat(quote::quote!(#block)));
                let toks: Vec<_> = toks.into_iter().filter(|t| t.1.start >= start).collect();
                do_rewrites(&mut edits, &toks, &mut dropped);
                // nested items are dropped from the body unless kept
                if d.get("drop_items").is_some() {
                    for it in items_of_block(block) {
                        let r = br(it.span());
                        edits.retain(|e| !(e.at >= r.start && e.end <= r.end));
                        push(&mut edits, r.start, r.end, String::new());
                        dropped.push(serde_json::json!({"item": path, "file": file, "nested_item_dropped": norm(&quote::quote!(#it)).chars().take(60).collect::<String>()}));
                    }
                }
                // attributes on statements/expressions are dropped
                let text = apply_edits(&src.text, start..whole.end, edits);
                let line0 = out.lines().count() + 1;
                let hdr = match (d.get("header"), header) {
                    (Some(h), _) => h.trim().to_string(),
                    (None, Some((i, _))) => {
                        let s = br(i.impl_token.span()).start;
                        let e = br(i.brace_token.span.open()).end;
                        src.text[s..e].to_string()
                    }
                    (None, None) => String::new(),
                };
                if d.get("header").is_some() {
                    dropped.push(serde_json::json!({"item": path, "file": file, "impl_header_replaced_by": hdr}));
                }
                let na: Vec<String> = attrs.iter().map(|a| quote::quote!(#a).to_string()).filter(|s| !s.starts_with("# [doc")).collect();
                if !na.is_empty() {
                    dropped.push(serde_json::json!({"item": path, "file": file, "attributes_dropped": na}));
                }
                if !hdr.is_empty() {
                    out.push_str(&hdr);
                    out.push('\n');
                }
                if let Some(a) = d.get("assoc") {
                    out.push_str(a);
                }
                if let Some(a) = d.get("attr") {
                    out.push_str(a.trim());
                    out.push('\n');
                }
                let mut t = text.trim_start().to_string();
                if let Some(n) = d.get("rename") {
                    // only for documentation: renaming the extracted function
                    t = t.replacen(&format!("fn {}", sig.ident), &format!("fn {}", n.trim()), 1);
                    dropped.push(serde_json::json!({"item": path, "file": file, "renamed": n.trim()}));
                }
                if d.get("novis").is_some() {
                    if let Some(r) = t.strip_prefix("pub ") {
                        t = r.to_string();
                    }
                }
                out.push_str(&t);
                out.push('\n');
                if !hdr.is_empty() {
                    out.push_str("}\n");
                }
                let line1 = out.lines().count();
                let btoks = flat(quote::quote!(#block)).into_iter().map(|t| t.0).collect::<Vec<_>>().join(" ");
                fns.push(serde_json::json!({
                    "file": file, "path": path, "line": src.text[..start].lines().count(),
                    "out_start": line0, "out_end": line1, "loops": loops.0.len(),
                    "tokens": btoks.split(' ').count(),
                    "contract": d.get("spec").map(|s| s.split_whitespace().collect::<Vec<_>>().join(" ")),
                    "vacuity": d.get("vacuity").map(|s| s.trim()) != Some("off"),
                }));
            }
        }
    }
    let mut m = String::new();
    write!(m, "{}", serde_json::json!({"functions": fns, "transformations": dropped})).unwrap();
    fs::write(&args[3], out).unwrap();
    fs::write(&args[4], m).unwrap();
}
