//! Observations of equality: pairs of trees which differ in little or nothing but layout.

use crate::dump::Dump;
use crate::gen::{Gen, Rng};
use crate::Out;
use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorate, Decorated, Formatted, Ident, Number, Spanned};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Changes the `left`th node it visits.
struct Tweak {
    left: usize,
    r: Rng,
    what: String,
}

impl Tweak {
    fn now(&mut self, what: &str) -> bool {
        let now = self.left == 0;
        self.left = self.left.wrapping_sub(1);
        if now {
            self.what = what.to_string();
        }
        now
    }
    fn decorate(&mut self, d: &mut (impl Decorate + ?Sized)) {
        match self.r.below(3) {
            0 => d.decor_mut().set_prefix(" "),
            1 => d.decor_mut().set_suffix(" /**/ "),
            _ => d.decor_mut().clear(),
        }
    }
    fn strip(&mut self, s: &mut Strip) {
        let other = [Strip::None, Strip::Start, Strip::End, Strip::Both];
        *s = other[self.r.below(4)];
    }
}

macro_rules! tweaks {
    ($($f:ident($s:ident, $n:ident: $t:ty) $b:block)*) => {
        $(fn $f(&mut self, $n: &mut $t) {
            if self.now(stringify!($f)) {
                let $s = &mut *self;
                $b
            }
            visit_mut::$f(self, $n);
        })*
    };
}
macro_rules! leaves {
    ($($f:ident($s:ident, $n:ident: $t:ty) $b:block)*) => {
        $(fn $f(&mut self, $n: &mut $t) {
            if self.now(stringify!($f)) {
                let $s = &mut *self;
                $b
            }
        })*
    };
}

impl VisitMut for Tweak {
    leaves! {
        visit_ident_mut(s, n: Decorated<Ident>) {
            if s.r.chance(70) { *n.value_mut() = Ident::new(format!("{}x", n.as_str())) } else { s.decorate(n) }
        }
        visit_null_mut(s, n: Decorated<Null>) { s.decorate(n) }
        visit_bool_mut(s, n: Decorated<bool>) {
            if s.r.chance(70) { *n.value_mut() = !**n } else { s.decorate(n) }
        }
        visit_u64_mut(s, n: Decorated<u64>) {
            if s.r.chance(70) { *n.value_mut() += 1 } else { s.decorate(n) }
        }
        visit_number_mut(s, n: Formatted<Number>) {
            match s.r.below(3) {
                0 => *n.value_mut() = *n.value() + Number::from(1u8),
                1 => *n = Formatted::new(*n.value()),
                _ => s.decorate(n),
            }
        }
        visit_string_mut(s, n: Decorated<String>) {
            if s.r.chance(70) { n.value_mut().push('x') } else { s.decorate(n) }
        }
        visit_splat_mut(s, n: Decorated<Splat>) { s.decorate(n) }
        visit_literal_mut(_s, n: Spanned<String>) { n.value_mut().push('x') }
        visit_unary_operator_mut(_s, n: Spanned<UnaryOperator>) {
            *n.value_mut() = if *n.value() == UnaryOperator::Neg { UnaryOperator::Not } else { UnaryOperator::Neg }
        }
        visit_binary_operator_mut(s, n: Decorated<BinaryOperator>) {
            if s.r.chance(70) {
                *n.value_mut() = if *n.value() == BinaryOperator::Mod { BinaryOperator::Div } else { BinaryOperator::Mod }
            } else { s.decorate(n) }
        }
        visit_endif_template_expr_mut(s, n: EndifTemplateExpr) {
            match s.r.below(3) { 0 => n.set_preamble(" "), 1 => n.set_trailing(" "), _ => s.strip(&mut n.strip) }
        }
        visit_endfor_template_expr_mut(s, n: EndforTemplateExpr) {
            match s.r.below(3) { 0 => n.set_preamble(" "), 1 => n.set_trailing(" "), _ => s.strip(&mut n.strip) }
        }
    }
    tweaks! {
        visit_body_mut(s, n: Body) {
            match s.r.below(5) {
                0 => n.set_prefer_oneline(!n.prefer_oneline()),
                1 => n.set_prefer_omit_trailing_newline(!n.prefer_omit_trailing_newline()),
                2 => n.push(Block::new(Ident::new("x"))),
                3 => { n.pop(); }
                _ => s.decorate(n),
            }
        }
        visit_block_mut(s, n: Block) {
            match s.r.below(4) {
                0 => n.labels.push(BlockLabel::from("x")),
                1 => { n.labels.pop(); }
                2 => { n.labels.reverse(); }
                _ => s.decorate(n),
            }
        }
        visit_block_label_mut(s, n: BlockLabel) {
            if s.r.chance(50) {
                *n = match n {
                    BlockLabel::Ident(i) => BlockLabel::from(i.as_str()),
                    BlockLabel::String(v) => BlockLabel::from(Ident::new_sanitized(v.as_str())),
                }
            } else { s.decorate(n) }
        }
        visit_expr_mut(s, n: Expression) {
            match s.r.below(4) {
                0 => *n = Expression::from(Parenthesis::new(n.clone())),
                1 => *n = Expression::null(),
                2 => if let Expression::Parenthesis(p) = n { *n = p.inner().clone() },
                _ => s.decorate(n),
            }
        }
        visit_array_mut(s, n: Array) {
            match s.r.below(4) {
                0 => n.set_trailing_comma(!n.trailing_comma()),
                1 => n.set_trailing(" "),
                2 => { n.pop(); }
                _ => n.push(true),
            }
        }
        visit_object_mut(s, n: Object) {
            match s.r.below(3) {
                0 => n.set_trailing(" "),
                1 => { n.insert(ObjectKey::from(Ident::new("x")), ObjectValue::new(1)); }
                _ => { let k = n.iter().next().map(|(k, _)| k.clone()); if let Some(k) = k { n.remove(&k); } }
            }
        }
        visit_object_value_mut(s, n: ObjectValue) {
            if s.r.chance(50) {
                n.set_assignment([ObjectValueAssignment::Colon, ObjectValueAssignment::Equals][s.r.below(2)])
            } else {
                n.set_terminator([ObjectValueTerminator::None, ObjectValueTerminator::Newline, ObjectValueTerminator::Comma][s.r.below(3)])
            }
        }
        visit_parenthesis_mut(s, n: Parenthesis) { s.decorate(n) }
        visit_conditional_mut(s, n: Conditional) {
            match s.r.below(3) {
                0 => std::mem::swap(&mut n.true_expr, &mut n.false_expr),
                1 => std::mem::swap(&mut n.cond_expr, &mut n.false_expr),
                _ => s.decorate(n),
            }
        }
        visit_unary_op_mut(s, n: UnaryOp) { s.decorate(n) }
        visit_binary_op_mut(s, n: BinaryOp) {
            if s.r.chance(50) { std::mem::swap(&mut n.lhs_expr, &mut n.rhs_expr) } else { s.decorate(n) }
        }
        visit_traversal_mut(s, n: Traversal) {
            match s.r.below(3) { 0 => { n.operators.pop(); } 1 => n.operators.reverse(), _ => s.decorate(n) }
        }
        visit_traversal_operator_mut(_s, n: TraversalOperator) {
            *n = match n {
                TraversalOperator::AttrSplat(x) => TraversalOperator::FullSplat(x.clone()),
                TraversalOperator::FullSplat(x) => TraversalOperator::AttrSplat(x.clone()),
                TraversalOperator::GetAttr(x) => TraversalOperator::Index(Expression::from(x.as_str())),
                TraversalOperator::LegacyIndex(x) => TraversalOperator::Index(Expression::from(**x)),
                TraversalOperator::Index(_) => TraversalOperator::GetAttr(Decorated::new(Ident::new("x"))),
            }
        }
        visit_func_call_mut(s, n: FuncCall) { s.decorate(n) }
        visit_func_name_mut(s, n: FuncName) {
            match s.r.below(2) { 0 => { n.namespace.pop(); } _ => n.set_namespace([Ident::new("x")]) }
        }
        visit_func_args_mut(s, n: FuncArgs) {
            match s.r.below(5) {
                0 => n.set_trailing_comma(!n.trailing_comma()),
                1 => n.set_trailing(" "),
                2 => { n.pop(); }
                3 => n.set_expand_final(!n.expand_final()),
                _ => n.push(true),
            }
        }
        visit_for_expr_mut(s, n: ForExpr) {
            match s.r.below(5) {
                0 => n.grouping = !n.grouping,
                1 => n.key_expr = if n.key_expr.is_some() { None } else { Some(Expression::from(true)) },
                2 => n.cond = if n.cond.is_some() { None } else { Some(ForCond::new(true)) },
                3 => if let Some(k) = &mut n.key_expr { std::mem::swap(k, &mut n.value_expr) },
                _ => s.decorate(n),
            }
        }
        visit_for_intro_mut(s, n: ForIntro) {
            match s.r.below(2) {
                0 => n.key_var = if n.key_var.is_some() { None } else { Some(Decorated::new(Ident::new("x"))) },
                _ => s.decorate(n),
            }
        }
        visit_for_cond_mut(s, n: ForCond) { s.decorate(n) }
        visit_heredoc_template_mut(s, n: HeredocTemplate) {
            match s.r.below(4) {
                0 => n.delimiter = Ident::new(format!("{}x", n.delimiter.as_str())),
                1 => n.set_indent(s.r.below(3)),
                2 => n.set_trailing(" "),
                _ => s.decorate(n),
            }
        }
        visit_template_mut(s, n: Template) {
            match s.r.below(2) { 0 => { n.pop(); } _ => n.push(Interpolation::new(1)) }
        }
        visit_string_template_mut(s, n: StringTemplate) { s.decorate(n) }
        visit_interpolation_mut(s, n: Interpolation) { s.strip(&mut n.strip) }
        visit_if_directive_mut(s, n: IfDirective) {
            n.else_expr = match n.else_expr.take() {
                None => Some(ElseTemplateExpr::new(Template::new())),
                Some(_) if s.r.chance(50) => None,
                Some(mut e) => { std::mem::swap(&mut e.template, &mut n.if_expr.template); Some(e) }
            }
        }
        visit_if_template_expr_mut(s, n: IfTemplateExpr) {
            match s.r.below(2) { 0 => n.set_preamble("  "), _ => s.strip(&mut n.strip) }
        }
        visit_else_template_expr_mut(s, n: ElseTemplateExpr) {
            match s.r.below(3) { 0 => n.set_preamble(" "), 1 => n.set_trailing(" "), _ => s.strip(&mut n.strip) }
        }
        visit_for_template_expr_mut(s, n: ForTemplateExpr) {
            match s.r.below(3) {
                0 => n.set_preamble("  "),
                1 => n.key_var = if n.key_var.is_some() { None } else { Some(Decorated::new(Ident::new("x"))) },
                _ => s.strip(&mut n.strip),
            }
        }
    }
    fn visit_object_key_mut(&mut self, mut n: ObjectKeyMut) {
        if self.now("visit_object_key_mut") {
            self.decorate(&mut n);
        }
    }
    fn visit_attr_mut(&mut self, mut n: AttributeMut) {
        if self.now("visit_attr_mut") {
            self.decorate(&mut n);
        }
        visit_mut::visit_attr_mut(self, n);
    }
}

fn pair<T: PartialEq + Clone>(m: &str, a: &T, b: &T, how: &str, dump: impl Fn(&T) -> Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let c = b.clone();
        #[allow(clippy::eq_op)]
        let own = b == b && *b == c && c == *b && !(*b != c);
        json!({"eq": a == b, "qe": b == a, "ne": a != b, "clone": *a == c, "own": own})
    }));
    let mut v = r.unwrap_or(json!({"eq": "panic", "qe": "panic", "ne": "panic", "clone": "panic", "own": "panic"}));
    v["m"] = json!(m);
    v["how"] = json!(how);
    v["a"] = dump(a);
    v["b"] = dump(b);
    v
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 25000 } else { 3000 };
    let mut g = Gen::new(seed ^ 0xe9, 5);
    let d = Dump { bare: false, unset: false, spans: false };
    for i in 0..n {
        g.noise = [0, 10][i % 2];
        let depth = 1 + i % 3;
        let (m, s) = match i % 4 {
            0 => ("body", g.body(depth, true)),
            1 | 2 => ("expr", g.expr(depth, false)),
            _ => ("tpl", g.elements(depth, false, true)),
        };
        if s.chars().count() > 160 {
            continue;
        }
        out.current(&s);
        macro_rules! pairs {
            ($t:ty, $visit:ident, $dump:expr) => {{
                let Ok(a) = s.parse::<$t>() else { continue };
                for _ in 0..2 {
                    let other = g.mutate(&s);
                    if let Ok(b) = other.parse::<$t>() {
                        out.put(&pair(m, &a, &b, "mutated", $dump));
                    }
                }
                let mut count = Tweak { left: usize::MAX, r: Rng::new(1), what: String::new() };
                count.$visit(&mut a.clone());
                let nodes = usize::MAX - count.left;
                for _ in 0..4 {
                    let mut b = a.clone();
                    let mut tweak = Tweak { left: g.r.below(nodes), r: Rng::new(g.r.next()), what: String::new() };
                    tweak.$visit(&mut b);
                    out.put(&pair(m, &a, &b, &tweak.what, $dump));
                }
            }};
        }
        match m {
            "body" => pairs!(Body, visit_body_mut, |b| d.body(b)),
            "expr" => pairs!(Expression, visit_expr_mut, |e| d.expr(e)),
            _ => pairs!(Template, visit_template_mut, |e| d.template(e)),
        }
    }
}
