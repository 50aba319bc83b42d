//! mutgen FILE FIRST_ID [DISABLED_IDS]: writes FILE's source with switchable
//! mutants to stdout, and one line per mutant (id, line, kind, text) to stderr.
//! Mutant i is active when simseam::m(i) is true. Test code is left out.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Gen {
    next: u32,
    off: HashSet<u32>,
}

fn has_let(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> visit::Visit<'a> for F {
        fn visit_expr_let(&mut self, _: &'a ExprLet) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut f = F(false);
    visit::Visit::visit_expr(&mut f, e);
    f.0
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.contains("(test") || t == "#[test]" || t.contains("cfg(not(feature=\"std\"))")
    })
}

impl Gen {
    /// A new mutant; None if it is switched off.
    fn id(&mut self, at: Span, kind: &str, text: impl ToTokens) -> Option<Expr> {
        let n = self.next;
        self.next += 1;
        if self.off.contains(&n) {
            return None;
        }
        let t: String = text.to_token_stream().to_string().chars().take(90).collect();
        eprintln!("{n}\t{}\t{kind}\t{}", at.start().line, t.replace('\n', " ").replace('\t', " "));
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        Some(parse_quote!(::simseam::m(#lit)))
    }
    fn cond(&mut self, c: &mut Expr) {
        if has_let(c) {
            return;
        }
        let at = c.span();
        let text = c.clone();
        visit_mut::visit_expr_mut(self, c);
        let a = self.id(at, "cond-true", &text);
        let b = self.id(at, "cond-false", &text);
        let old = c.clone();
        *c = match (a, b) {
            (Some(a), Some(b)) => parse_quote!((#a || (#old)) && !#b),
            (Some(a), None) => parse_quote!(#a || (#old)),
            (None, Some(b)) => parse_quote!(!#b && (#old)),
            _ => old,
        };
    }
}

impl VisitMut for Gen {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if !is_test(&i.attrs) {
            visit_mut::visit_item_mod_mut(self, i);
        }
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if !is_test(&i.attrs) && i.sig.constness.is_none() {
            visit_mut::visit_item_fn_mut(self, i);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        if !is_test(&i.attrs) && i.sig.constness.is_none() {
            visit_mut::visit_impl_item_fn_mut(self, i);
        }
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_expr_repeat_mut(&mut self, i: &mut ExprRepeat) {
        self.visit_expr_mut(&mut i.expr);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if has_let(&i.cond) {
            visit_mut::visit_expr_if_mut(self, i);
        } else {
            self.cond(&mut i.cond);
            self.visit_block_mut(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                self.visit_expr_mut(e);
            }
        }
    }
    fn visit_arm_mut(&mut self, i: &mut Arm) {
        if let Some((_, g)) = &mut i.guard {
            self.cond(g);
        }
        self.visit_expr_mut(&mut i.body);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, Some(_)) = s {
            let at = e.span();
            let text = e.clone();
            let plain = matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Try(_))
                || matches!(e, Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)));
            visit_mut::visit_expr_mut(self, e);
            if plain {
                if let Some(m) = self.id(at, "delete", &text) {
                    let e = e.clone();
                    *s = parse_quote!(if !#m { #e; });
                }
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_struct_mut(&mut self, i: &mut ExprStruct) {
        for f in &mut i.fields {
            let at = f.expr.span();
            let text = f.clone();
            self.visit_expr_mut(&mut f.expr);
            f.colon_token = Some(Default::default());
            let plain = f.expr.to_token_stream().to_string().replace(' ', "");
            if plain.ends_with("new()") || plain.ends_with("default()") || ["None", "0", "false"].contains(&plain.as_str()) {
                continue;
            }
            if let Some(m) = self.id(at, "default-field", &text) {
                let e = f.expr.clone();
                f.expr = parse_quote!(if #m { Default::default() } else { #e });
            }
        }
        if let Some(r) = &mut i.rest {
            self.visit_expr_mut(r);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let at = e.span();
        let text = e.clone();
        match e {
            Expr::Binary(b) => {
                if has_let(&Expr::Binary(b.clone())) {
                    visit_mut::visit_expr_binary_mut(self, b);
                    return;
                }
                visit_mut::visit_expr_binary_mut(self, b);
                let b = b.clone();
                let swaps: Vec<(&str, BinOp)> = match b.op {
                    BinOp::Lt(_) => vec![("lt-le", parse_quote!(<=))],
                    BinOp::Le(_) => vec![("le-lt", parse_quote!(<))],
                    BinOp::Gt(_) => vec![("gt-ge", parse_quote!(>=))],
                    BinOp::Ge(_) => vec![("ge-gt", parse_quote!(>))],
                    BinOp::Eq(_) => vec![("eq-ne", parse_quote!(!=))],
                    BinOp::Ne(_) => vec![("ne-eq", parse_quote!(==))],
                    BinOp::And(_) => vec![("and-or", parse_quote!(||))],
                    BinOp::Or(_) => vec![("or-and", parse_quote!(&&))],
                    BinOp::Add(_) => vec![("add-sub", parse_quote!(-))],
                    BinOp::Sub(_) => vec![("sub-add", parse_quote!(+))],
                    _ => vec![],
                };
                for (k, op) in swaps {
                    if let Some(m) = self.id(at, k, &text) {
                        let mut other = b.clone();
                        other.op = op;
                        *e = parse_quote!((if #m { #other } else { #b }));
                    }
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Bool(v) => {
                    if let Some(m) = self.id(at, "bool", &text) {
                        *e = if v.value { parse_quote!((!#m)) } else { parse_quote!(#m) };
                    }
                }
                Lit::Int(v) => {
                    let v = v.clone();
                    if let Some(m) = self.id(at, "int+1", &text) {
                        *e = parse_quote!((if #m { #v + 1 } else { #v }));
                    }
                }
                _ => {}
            },
            Expr::Call(c) => {
                let name = c.func.to_token_stream().to_string().replace(' ', "");
                if name == "Some" {
                    visit_mut::visit_expr_call_mut(self, c);
                    if let Some(m) = self.id(at, "some-none", &text) {
                        let c = c.clone();
                        *e = parse_quote!((if #m { None } else { #c }));
                    }
                } else {
                    visit_mut::visit_expr_call_mut(self, c);
                }
            }
            Expr::MethodCall(c) => {
                visit_mut::visit_expr_method_call_mut(self, c);
                let n = c.method.to_string();
                let negate = matches!(
                    n.as_str(),
                    "is_empty" | "contains_key" | "contains" | "is_some" | "is_none" | "is_ok" | "is_err" | "any" | "all" | "eq" | "is_some_and" | "is_none_or"
                );
                let swap = match n.as_str() {
                    "min" => "max",
                    "max" => "min",
                    "first" => "last",
                    "last" => "first",
                    "front" => "back",
                    "pop_front" => "pop_back",
                    "push_back" => "push_front",
                    "any" => "all",
                    "all" => "any",
                    "and" => "or",
                    "take" if c.args.is_empty() => "clone",
                    "first_key_value" => "last_key_value",
                    "pop_first" => "pop_last",
                    _ => "",
                };
                if negate {
                    if let Some(m) = self.id(at, "negate", &text) {
                        let c = c.clone();
                        *e = parse_quote!((#m ^ #c));
                        return;
                    }
                }
                if let (false, Expr::MethodCall(c)) = (swap.is_empty(), &*e) {
                    let c = c.clone();
                    if let Some(m) = self.id(at, swap, &text) {
                        let mut o = c.clone();
                        o.method = Ident::new(swap, Span::call_site());
                        *e = parse_quote!((if #m { #o } else { #c }));
                    }
                }
            }
            Expr::Continue(_) => {
                if let Some(m) = self.id(at, "continue-break", &text) {
                    *e = parse_quote!(if #m { break } else { continue });
                }
            }
            Expr::Break(b) if b.expr.is_none() && b.label.is_none() => {
                if let Some(m) = self.id(at, "break-continue", &text) {
                    *e = parse_quote!(if #m { continue } else { break });
                }
            }
            Expr::While(w) => {
                if !has_let(&w.cond) {
                    self.cond(&mut w.cond);
                } else {
                    self.visit_expr_mut(&mut w.cond);
                }
                self.visit_block_mut(&mut w.body);
            }
            Expr::Return(r) => {
                // An early return in a unit function.
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let off = a.get(3).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let mut g = Gen { next: a[2].parse().unwrap(), off };
    g.visit_file_mut(&mut f);
    println!("{}", prettyplease::unparse(&f));
    eprintln!("END\t{}", g.next);
    let _ = quote!();
}
