//! Observations of the visitors: which methods are called with what, in which order and nesting,
//! and what a mutable visitor changes.

use crate::dump::{decimal, t, Dump};
use crate::gen::Gen;
use crate::Out;
use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorated, Formatted, Ident, Number, Spanned};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Payloads are sequences of integers.
trait Payload {
    fn x(&self) -> Value;
    /// What a mutable visitor does to it.
    fn change(&mut self) {}
}

macro_rules! plain {
    ($($t:ty),*) => { $(impl Payload for $t { fn x(&self) -> Value { json!([]) } })* };
}
plain!(
    Decorated<Null>, Decorated<Splat>, EndifTemplateExpr, EndforTemplateExpr, Body, Structure, Attribute, Block,
    BlockLabel, Expression, Array, Object, ObjectKey, ObjectValue, Parenthesis, Conditional, UnaryOp, BinaryOp,
    Traversal, TraversalOperator, FuncCall, FuncName, FuncArgs, ForExpr, ForIntro, ForCond, StringTemplate,
    HeredocTemplate, Template, Element, Interpolation, Directive, IfDirective, ForDirective, IfTemplateExpr,
    ElseTemplateExpr, ForTemplateExpr
);

impl Payload for Decorated<Ident> {
    fn x(&self) -> Value {
        t(self.as_str())
    }
    fn change(&mut self) {
        *self.value_mut() = Ident::new(format!("{}_", self.as_str()));
    }
}
impl Payload for Decorated<bool> {
    fn x(&self) -> Value {
        json!([u8::from(**self)])
    }
    fn change(&mut self) {
        *self.value_mut() = !**self;
    }
}
impl Payload for Decorated<u64> {
    fn x(&self) -> Value {
        t(&self.value().to_string())
    }
    fn change(&mut self) {
        *self.value_mut() = 7;
    }
}
impl Payload for Formatted<Number> {
    fn x(&self) -> Value {
        let d = decimal(&self.value().to_string());
        let mut v = vec![json!(u8::from(d["neg"] == true)), d["x"].clone()];
        v.extend(d["digs"].as_array().unwrap().iter().cloned());
        v.into()
    }
    fn change(&mut self) {
        *self.value_mut() = Number::from(7u64);
    }
}
impl Payload for Decorated<String> {
    fn x(&self) -> Value {
        t(self)
    }
    fn change(&mut self) {
        self.value_mut().push('!');
    }
}
impl Payload for Spanned<String> {
    fn x(&self) -> Value {
        t(self)
    }
    fn change(&mut self) {
        self.value_mut().push('.');
    }
}
impl Payload for Spanned<UnaryOperator> {
    fn x(&self) -> Value {
        t(self.value().as_str())
    }
    fn change(&mut self) {
        *self.value_mut() = if *self.value() == UnaryOperator::Neg { UnaryOperator::Not } else { UnaryOperator::Neg };
    }
}
impl Payload for Decorated<BinaryOperator> {
    fn x(&self) -> Value {
        t(self.value().as_str())
    }
    fn change(&mut self) {
        *self.value_mut() = if *self.value() == BinaryOperator::Eq { BinaryOperator::NotEq } else { BinaryOperator::Eq };
    }
}

#[derive(Default)]
struct Rec {
    events: Vec<Value>,
    depth: usize,
    /// The event below which nothing is visited.
    stop: Option<usize>,
    change: bool,
}

impl Rec {
    fn hook(&mut self, m: &str, x: Value) -> bool {
        self.events.push(json!({"m": m, "d": self.depth, "x": x}));
        self.stop != Some(self.events.len())
    }
}

macro_rules! leaves {
    ($($f:ident $t:ty),* $(,)?) => { $(
        fn $f(&mut self, node: &$t) {
            self.hook(&stringify!($f)[6..], node.x());
        }
    )* };
}
macro_rules! inner {
    ($($f:ident $t:ty),* $(,)?) => { $(
        fn $f(&mut self, node: &$t) {
            if self.hook(&stringify!($f)[6..], node.x()) {
                self.depth += 1;
                visit::$f(self, node);
                self.depth -= 1;
            }
        }
    )* };
}
macro_rules! leaves_mut {
    ($($f:ident $t:ty),* $(,)?) => { $(
        fn $f(&mut self, node: &mut $t) {
            self.hook(stringify!($f)[6..].strip_suffix("_mut").unwrap(), node.x());
            if self.change {
                node.change();
            }
        }
    )* };
}
macro_rules! inner_mut {
    ($($f:ident $t:ty),* $(,)?) => { $(
        fn $f(&mut self, node: &mut $t) {
            if self.hook(stringify!($f)[6..].strip_suffix("_mut").unwrap(), node.x()) {
                self.depth += 1;
                visit_mut::$f(self, node);
                self.depth -= 1;
            }
        }
    )* };
}

impl Visit for Rec {
    leaves! {
        visit_ident Decorated<Ident>, visit_null Decorated<Null>, visit_bool Decorated<bool>,
        visit_u64 Decorated<u64>, visit_number Formatted<Number>, visit_string Decorated<String>,
        visit_splat Decorated<Splat>, visit_literal Spanned<String>, visit_unary_operator Spanned<UnaryOperator>,
        visit_binary_operator Decorated<BinaryOperator>, visit_endif_template_expr EndifTemplateExpr,
        visit_endfor_template_expr EndforTemplateExpr,
    }
    inner! {
        visit_body Body, visit_structure Structure, visit_attr Attribute, visit_block Block,
        visit_block_label BlockLabel, visit_expr Expression, visit_array Array, visit_object Object,
        visit_object_key ObjectKey, visit_object_value ObjectValue, visit_parenthesis Parenthesis,
        visit_conditional Conditional, visit_unary_op UnaryOp, visit_binary_op BinaryOp, visit_traversal Traversal,
        visit_traversal_operator TraversalOperator, visit_func_call FuncCall, visit_func_name FuncName,
        visit_func_args FuncArgs, visit_for_expr ForExpr, visit_for_intro ForIntro, visit_for_cond ForCond,
        visit_string_template StringTemplate, visit_heredoc_template HeredocTemplate, visit_template Template,
        visit_element Element, visit_interpolation Interpolation, visit_directive Directive,
        visit_if_directive IfDirective, visit_for_directive ForDirective, visit_if_template_expr IfTemplateExpr,
        visit_else_template_expr ElseTemplateExpr, visit_for_template_expr ForTemplateExpr,
    }
    fn visit_object_item(&mut self, key: &ObjectKey, value: &ObjectValue) {
        if self.hook("object_item", json!([])) {
            self.depth += 1;
            visit::visit_object_item(self, key, value);
            self.depth -= 1;
        }
    }
}

impl VisitMut for Rec {
    leaves_mut! {
        visit_ident_mut Decorated<Ident>, visit_null_mut Decorated<Null>, visit_bool_mut Decorated<bool>,
        visit_u64_mut Decorated<u64>, visit_number_mut Formatted<Number>, visit_string_mut Decorated<String>,
        visit_splat_mut Decorated<Splat>, visit_literal_mut Spanned<String>,
        visit_unary_operator_mut Spanned<UnaryOperator>, visit_binary_operator_mut Decorated<BinaryOperator>,
        visit_endif_template_expr_mut EndifTemplateExpr, visit_endfor_template_expr_mut EndforTemplateExpr,
    }
    inner_mut! {
        visit_body_mut Body, visit_block_mut Block,
        visit_block_label_mut BlockLabel, visit_expr_mut Expression, visit_array_mut Array, visit_object_mut Object,
        visit_object_value_mut ObjectValue, visit_parenthesis_mut Parenthesis,
        visit_conditional_mut Conditional, visit_unary_op_mut UnaryOp, visit_binary_op_mut BinaryOp,
        visit_traversal_mut Traversal, visit_traversal_operator_mut TraversalOperator, visit_func_call_mut FuncCall,
        visit_func_name_mut FuncName, visit_func_args_mut FuncArgs, visit_for_expr_mut ForExpr,
        visit_for_intro_mut ForIntro, visit_for_cond_mut ForCond, visit_string_template_mut StringTemplate,
        visit_heredoc_template_mut HeredocTemplate, visit_template_mut Template, visit_element_mut Element,
        visit_interpolation_mut Interpolation, visit_directive_mut Directive, visit_if_directive_mut IfDirective,
        visit_for_directive_mut ForDirective, visit_if_template_expr_mut IfTemplateExpr,
        visit_else_template_expr_mut ElseTemplateExpr, visit_for_template_expr_mut ForTemplateExpr,
    }
    fn visit_structure_mut(&mut self, node: StructureMut) {
        if self.hook("structure", json!([])) {
            self.depth += 1;
            visit_mut::visit_structure_mut(self, node);
            self.depth -= 1;
        }
    }
    fn visit_attr_mut(&mut self, node: AttributeMut) {
        if self.hook("attr", t(node.get().key.as_str())) {
            self.depth += 1;
            visit_mut::visit_attr_mut(self, node);
            self.depth -= 1;
        }
    }
    fn visit_object_key_mut(&mut self, node: ObjectKeyMut) {
        let x = node.get().as_ident().map_or(json!([]), |i| t(i.as_str()));
        self.hook("object_key", x);
    }
    fn visit_object_item_mut(&mut self, key: ObjectKeyMut, value: &mut ObjectValue) {
        if self.hook("object_item", json!([])) {
            self.depth += 1;
            visit_mut::visit_object_item_mut(self, key, value);
            self.depth -= 1;
        }
    }
}

/// A visitor which overrides nothing must leave everything as it is.
struct Nothing;
impl Visit for Nothing {}
impl VisitMut for Nothing {}

fn observe(m: &str, s: &str, stop: usize) -> Option<Value> {
    let d = Dump { bare: false, unset: false, spans: false };
    macro_rules! go {
        ($t:ty, $f:ident, $g:ident, $dump:expr) => {{
            let x: $t = s.parse().ok()?;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let (mut a, mut b, mut p, mut q, mut c) =
                    (Rec::default(), Rec::default(), Rec::default(), Rec::default(), Rec::default());
                Nothing.$f(&x);
                a.$f(&x);
                p.stop = Some(stop);
                q.stop = Some(stop);
                p.$f(&x);
                let mut y = x.clone();
                Nothing.$g(&mut y);
                b.$g(&mut y);
                q.$g(&mut y);
                let same = y == x && y.to_string() == x.to_string();
                c.change = true;
                c.$g(&mut y);
                json!({"r": "ok", "ev": a.events, "evm": b.events, "cut": p.events, "cutm": q.events, "same": same,
                    "evc": c.events.len(), "tree": $dump(&y)})
            }));
            r.unwrap_or(json!({"r": "panic"}))
        }};
    }
    let mut v = match m {
        "body" => go!(Body, visit_body, visit_body_mut, |b| d.body(b)),
        "expr" => go!(Expression, visit_expr, visit_expr_mut, |b| d.expr(b)),
        _ => go!(Template, visit_template, visit_template_mut, |b| json!({"k": "template", "els": d.template(b)})),
    };
    v["m"] = json!(m);
    v["s"] = t(s);
    v["stop"] = json!(stop);
    Some(v)
}

pub fn run(out: &mut Out, seed: u64, tier: &str) {
    let n = if tier == "thorough" { 15000 } else { 2000 };
    let mut g = Gen::new(seed ^ 0x7151, 5);
    for i in 0..n {
        let d = 1 + i % 3;
        let (m, s) = match i % 4 {
            0 => ("body", g.body(d, true)),
            1 | 2 => ("expr", g.expr(d + 1, false)),
            _ => ("tpl", g.elements(d, false, true)),
        };
        if s.chars().count() > 300 {
            continue;
        }
        out.current(&s);
        let stop = 1 + g.r.below(20);
        if let Some(v) = observe(m, &s, stop) {
            out.put(&v);
        }
    }
}
