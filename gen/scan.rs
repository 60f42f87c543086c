//! A rustc driver that expands a program and reports every unsafe construct in the result that stems
//! from a macro defined in `gecs` or `gecs_macros`. rustc itself does not apply `unsafe_code` to the
//! output of other crates' macros, so compiling under `forbid(unsafe_code)` would not tell.
//!
//! Built with the nightly toolchain (rustc-dev). Prints one line per construct:
//! `UNSAFE <line of the outermost macro call> <what> <macro>`, then
//! `EXPANDED <macro calls of gecs> <AST nodes visited that stem from them>`.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::visit::{self, AssocCtxt, FnKind, Visitor};
use rustc_ast::{self as ast, Safety};
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;
use rustc_span::{ExpnKind, Span};
use std::collections::HashSet;

struct Scan<'tcx> {
    tcx: TyCtxt<'tcx>,
    nodes: u64,
    calls: HashSet<u32>,
    found: Vec<(usize, String, String)>,
}

impl<'tcx> Scan<'tcx> {
    /// The gecs macro whose output this node is, if any: the innermost expansion is one of a gecs macro.
    fn origin(&mut self, span: Span) -> Option<(usize, String)> {
        if !span.from_expansion() {
            return None;
        }
        let data = span.ctxt().outer_expn_data();
        let ExpnKind::Macro(_, name) = data.kind else { return None };
        let def = data.macro_def_id?;
        let krate = self.tcx.crate_name(def.krate);
        // `ecs_world!` defines the query macros in the user's crate: local macros count too.
        if !def.is_local() && krate.as_str() != "gecs" && krate.as_str() != "gecs_macros" {
            return None;
        }
        let mut site = data.call_site;
        while site.from_expansion() {
            site = site.ctxt().outer_expn_data().call_site;
        }
        let line = self.tcx.sess.source_map().lookup_char_pos(site.lo()).line;
        self.calls.insert(site.lo().0);
        Some((line, name.to_string()))
    }
    fn node(&mut self, span: Span) {
        if self.origin(span).is_some() {
            self.nodes += 1;
        }
    }
    fn report(&mut self, span: Span, what: &str) {
        if let Some((line, name)) = self.origin(span) {
            self.found.push((line, what.to_string(), name));
        }
    }
    fn item(&mut self, kind: &ast::ItemKind, span: Span) {
        match kind {
            ast::ItemKind::Trait(t) if matches!(t.safety, Safety::Unsafe(_)) => self.report(span, "unsafe trait"),
            ast::ItemKind::Impl(ast::Impl { of_trait: Some(h), .. }) if matches!(h.safety, Safety::Unsafe(_)) => self.report(span, "unsafe impl"),
            ast::ItemKind::GlobalAsm(..) => self.report(span, "global_asm"),
            ast::ItemKind::ForeignMod(..) => self.report(span, "extern block"),
            ast::ItemKind::Mod(Safety::Unsafe(_), ..) => self.report(span, "unsafe mod"),
            _ => {}
        }
    }
}

impl<'a, 'tcx> Visitor<'a> for Scan<'tcx> {
    fn visit_expr(&mut self, e: &'a ast::Expr) {
        self.node(e.span);
        match &e.kind {
            ast::ExprKind::InlineAsm(..) => self.report(e.span, "asm"),
            _ => {}
        }
        visit::walk_expr(self, e);
    }
    fn visit_block(&mut self, b: &'a ast::Block) {
        if b.rules == ast::BlockCheckMode::Unsafe(ast::UserProvided) {
            self.report(b.span, "unsafe block");
        }
        visit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'a ast::Item) {
        self.node(i.span);
        self.item(&i.kind, i.span);
        visit::walk_item(self, i);
    }
    fn visit_assoc_item(&mut self, i: &'a ast::AssocItem, ctxt: AssocCtxt) {
        self.node(i.span);
        visit::walk_assoc_item(self, i, ctxt);
    }
    fn visit_fn(&mut self, fk: FnKind<'a>, attrs: &ast::AttrVec, span: Span, _: ast::NodeId) {
        if let FnKind::Fn(_, _, f) = &fk {
            if matches!(f.sig.header.safety, Safety::Unsafe(_)) {
                self.report(span, "unsafe fn");
            }
        }
        let _ = attrs;
        visit::walk_fn(self, fk);
    }
    fn visit_attribute(&mut self, a: &'a ast::Attribute) {
        const BAD: [&str; 6] = ["no_mangle", "export_name", "link_section", "allow_internal_unsafe", "ffi_const", "ffi_pure"];
        if let ast::AttrKind::Normal(n) = &a.kind {
            if matches!(n.item.unsafety, Safety::Unsafe(_)) {
                self.report(a.span, "unsafe attribute");
            }
            if let Some(name) = a.name() {
                if BAD.contains(&name.as_str()) {
                    self.report(a.span, "attribute of unsafe effect");
                }
            }
        }
        visit::walk_attribute(self, a);
    }
}

struct C;
impl Callbacks for C {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let r = tcx.resolver_for_lowering();
        let krate = r.1.borrow();
        let mut s = Scan { tcx, nodes: 0, calls: HashSet::new(), found: Vec::new() };
        visit::walk_crate(&mut s, &*krate);
        for (line, what, name) in &s.found {
            println!("UNSAFE {line} {what} in the output of {name}!");
        }
        println!("EXPANDED {} {}", s.calls.len(), s.nodes);
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut C))
}
