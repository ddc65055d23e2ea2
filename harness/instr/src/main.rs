//! vh-instr FROM TO [FROM TO]...: copies Rust source trees with a call of `::vhpoints::point(n)` before each
//! statement, n counting through all of them.  What the code does stays the same.
use quote::ToTokens;
use std::fs;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};

struct Points(u32);

impl VisitMut for Points {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = Vec::with_capacity(b.stmts.len() * 2);
        for mut s in std::mem::take(&mut b.stmts) {
            if !matches!(s, syn::Stmt::Item(_)) {
                let n = self.0;
                self.0 += 1;
                out.push(syn::parse_quote!(::vhpoints::point(#n);));
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_item_fn_mut(self, f);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_impl_item_fn_mut(self, f);
        }
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut syn::TraitItemFn) {
        if f.sig.constness.is_none() {
            visit_mut::visit_trait_item_fn_mut(self, f);
        }
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if !m.attrs.iter().any(|a| a.path().is_ident("cfg")) {
            visit_mut::visit_item_mod_mut(self, m);
        }
    }
    // constant expressions
    fn visit_item_const_mut(&mut self, _: &mut syn::ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut syn::ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut syn::ImplItemConst) {}
    fn visit_trait_item_const_mut(&mut self, _: &mut syn::TraitItemConst) {}
    fn visit_item_enum_mut(&mut self, _: &mut syn::ItemEnum) {}
    fn visit_expr_const_mut(&mut self, _: &mut syn::ExprConst) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut syn::ExprRepeat) {
        self.visit_expr_mut(&mut e.expr);
    }
    fn visit_type_mut(&mut self, _: &mut syn::Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut syn::GenericArgument) {}
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut all: Vec<_> = fs::read_dir(dir).expect("read dir").flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            files(&p, out);
        } else {
            out.push(p);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut points = Points(0);
    for pair in args.chunks(2) {
        let (from, to) = (Path::new(&pair[0]), Path::new(&pair[1]));
        let mut all = vec![];
        files(from, &mut all);
        let mut want = vec![];
        for f in all {
            let dst = to.join(f.strip_prefix(from).unwrap());
            let mut text = fs::read(&f).expect("read");
            if f.extension().is_some_and(|e| e == "rs") {
                let parsed = std::str::from_utf8(&text).ok().and_then(|t| syn::parse_file(t).ok());
                // what does not parse is left for the compiler to report
                if let Some(mut file) = parsed {
                    file.attrs.retain(|a| {
                        !["deny", "forbid", "warn"].iter().any(|x| a.path().is_ident(x))
                    });
                    points.visit_file_mut(&mut file);
                    file.attrs.push(syn::parse_quote!(#![allow(warnings)]));
                    text = file.to_token_stream().to_string().into_bytes();
                }
            }
            if fs::read(&dst).ok().as_deref() != Some(&text) {
                fs::create_dir_all(dst.parent().unwrap()).expect("mkdir");
                fs::write(&dst, text).expect("write");
            }
            want.push(dst);
        }
        let mut have = vec![];
        if to.is_dir() {
            files(to, &mut have);
        }
        for f in have {
            if !want.contains(&f) {
                fs::remove_file(f).expect("remove");
            }
        }
    }
    println!("{} points", points.0);
}
