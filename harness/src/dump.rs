//! Projects hcl-edit values onto the records the specification works with.
//!
//! Texts are arrays of code points. `bare` leaves out decor, spans and everything else that has
//! no meaning.

use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::{Decorate, Decorated, Ident, RawString, Span};
use serde_json::{json, Map, Value};

pub fn t(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

#[derive(Clone, Copy)]
pub struct Dump {
    pub bare: bool,
    /// Mark decor which was never set instead of treating it like empty decor.
    pub unset: bool,
    pub spans: bool,
}

type M = Map<String, Value>;

fn m(k: &str) -> M {
    let mut m = M::new();
    m.insert("k".into(), json!(k));
    m
}

/// `0.digits * 10^x` of a displayed decimal number.
pub fn decimal(s: &str) -> Value {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (mant, exp) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<i64>().unwrap_or(0)),
        None => (s, 0),
    };
    let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
    let mut digs: Vec<u8> = int.bytes().chain(frac.bytes()).map(|b| b.wrapping_sub(b'0')).collect();
    let mut x = int.len() as i64 + exp;
    while digs.first() == Some(&0) {
        digs.remove(0);
        x -= 1;
    }
    while digs.last() == Some(&0) {
        digs.pop();
    }
    if digs.is_empty() {
        json!({"neg": false, "digs": [], "x": 0})
    } else {
        json!({"neg": neg, "digs": digs, "x": x})
    }
}

impl Dump {
    fn raw(&self, r: Option<&RawString>) -> Value {
        match r {
            _ if self.bare => json!([]),
            Some(r) => t(r),
            None if self.unset => json!([-1]),
            None => json!([]),
        }
    }

    fn span(&self, s: Option<std::ops::Range<usize>>) -> Value {
        match s {
            Some(s) if self.spans => json!([s.start, s.end]),
            _ => json!([]),
        }
    }

    fn node<T: Decorate + Span + ?Sized>(&self, k: &str, n: &T) -> M {
        let mut m = m(k);
        m.insert("sp".into(), self.span(n.span()));
        m.insert("pre".into(), self.raw(n.decor().prefix()));
        m.insert("suf".into(), self.raw(n.decor().suffix()));
        m
    }

    pub fn id(&self, k: &str, i: &Decorated<Ident>) -> Value {
        let mut m = self.node(k, i);
        m.insert("id".into(), t(i.as_str()));
        m.into()
    }

    fn no_id(&self) -> Value {
        json!({"k": "id", "sp": [], "pre": [], "suf": [], "id": []})
    }

    fn strip(&self, s: Strip) -> Value {
        json!([s.strip_start(), s.strip_end()])
    }

    fn null(&self) -> Value {
        json!({"k": "null", "sp": [], "pre": [], "suf": []})
    }

    pub fn expr(&self, e: &Expression) -> Value {
        match e {
            Expression::Null(v) => self.node("null", v).into(),
            Expression::Bool(v) => {
                let mut m = self.node("bool", v);
                m.insert("b".into(), json!(**v));
                m.into()
            }
            Expression::Number(v) => {
                let mut m = self.node("num", v);
                m.insert("repr".into(), self.raw(v.as_repr()));
                m.insert("val".into(), decimal(&v.value().to_string()));
                m.into()
            }
            Expression::String(v) => {
                let mut m = self.node("str", v);
                m.insert("sv".into(), t(v));
                m.into()
            }
            Expression::Array(v) => {
                let mut m = self.node("arr", v);
                m.insert("items".into(), v.iter().map(|e| self.expr(e)).collect());
                m.insert("tc".into(), json!(v.trailing_comma() && !self.bare));
                m.insert("tr".into(), self.raw(Some(v.trailing())));
                m.into()
            }
            Expression::Object(v) => self.object(v),
            Expression::StringTemplate(v) => {
                let mut m = self.node("tpl", v);
                m.insert("els".into(), v.iter().map(|e| self.element(e)).collect());
                m.into()
            }
            Expression::HeredocTemplate(v) => {
                let mut m = self.node("hd", &**v);
                m.insert("delim".into(), t(v.delimiter.as_str()));
                m.insert("ind".into(), v.indent().map_or(json!(-1), |i| json!(i)));
                m.insert("els".into(), self.template(&v.template));
                m.insert("tsp".into(), self.span(v.template.span()));
                m.insert("tr".into(), self.raw(Some(v.trailing())));
                m.into()
            }
            Expression::Parenthesis(v) => {
                let mut m = self.node("par", &**v);
                m.insert("e".into(), self.expr(v.inner()));
                m.into()
            }
            Expression::Variable(v) => self.id("var", v),
            Expression::Conditional(v) => {
                let mut m = self.node("cond", &**v);
                m.insert("ce".into(), self.expr(&v.cond_expr));
                m.insert("te".into(), self.expr(&v.true_expr));
                m.insert("fe".into(), self.expr(&v.false_expr));
                m.into()
            }
            Expression::FuncCall(v) => {
                let mut m = self.node("fn", &**v);
                m.insert("ns".into(), v.name.namespace.iter().map(|i| self.id("id", i)).collect());
                m.insert("name".into(), self.id("id", &v.name.name));
                m.insert("args".into(), v.args.iter().map(|e| self.expr(e)).collect());
                m.insert("exp".into(), json!(v.args.expand_final()));
                m.insert("tc".into(), json!(v.args.trailing_comma() && !self.bare));
                m.insert("tr".into(), self.raw(Some(v.args.trailing())));
                m.into()
            }
            Expression::Traversal(v) => {
                let mut m = self.node("trv", &**v);
                m.insert("e".into(), self.expr(&v.expr));
                m.insert("tops".into(), v.operators.iter().map(|o| self.top(o)).collect());
                m.into()
            }
            Expression::UnaryOp(v) => {
                let mut m = self.node("un", &**v);
                m.insert("uop".into(), json!(v.operator.value().as_str()));
                m.insert("osp".into(), self.span(v.operator.span()));
                m.insert("e".into(), self.expr(&v.expr));
                m.into()
            }
            Expression::BinaryOp(v) => {
                let mut m = self.node("bin", &**v);
                m.insert("l".into(), self.expr(&v.lhs_expr));
                let mut o = self.node("op", &v.operator);
                o.insert("o".into(), json!(v.operator.value().as_str()));
                m.insert("op".into(), o.into());
                m.insert("r".into(), self.expr(&v.rhs_expr));
                m.into()
            }
            Expression::ForExpr(v) => {
                let mut m = self.node("for", &**v);
                m.insert("isp".into(), self.span(v.intro.span()));
                m.insert("ipre".into(), self.raw(v.intro.decor().prefix()));
                m.insert("hask".into(), json!(v.intro.key_var.is_some()));
                m.insert(
                    "kv".into(),
                    v.intro.key_var.as_ref().map_or(self.no_id(), |i| self.id("id", i)),
                );
                m.insert("vv".into(), self.id("id", &v.intro.value_var));
                m.insert("coll".into(), self.expr(&v.intro.collection_expr));
                m.insert("haskey".into(), json!(v.key_expr.is_some()));
                m.insert("ke".into(), v.key_expr.as_ref().map_or(self.null(), |e| self.expr(e)));
                m.insert("ve".into(), self.expr(&v.value_expr));
                m.insert("grp".into(), json!(v.grouping));
                m.insert("hasc".into(), json!(v.cond.is_some()));
                m.insert("cond".into(), v.cond.as_ref().map_or(self.null(), |c| self.expr(&c.expr)));
                m.insert("csp".into(), self.span(v.cond.as_ref().and_then(|c| c.span())));
                m.insert(
                    "cpre".into(),
                    v.cond.as_ref().map_or(json!([]), |c| self.raw(c.decor().prefix())),
                );
                m.insert("tr".into(), json!([]));
                m.into()
            }
        }
    }

    fn top(&self, o: &Decorated<TraversalOperator>) -> Value {
        let inner = |tk: &str, sp, pre, suf, id: Value| {
            json!({"tk": tk, "k": "top", "opre": self.raw(o.decor().prefix()),
                   "osp": self.span(o.span()), "sp": sp, "pre": pre, "suf": suf, "id": id})
        };
        macro_rules! d {
            ($tk:expr, $v:expr, $id:expr) => {
                inner(
                    $tk,
                    self.span($v.span()),
                    self.raw($v.decor().prefix()),
                    self.raw($v.decor().suffix()),
                    $id,
                )
            };
        }
        match o.value() {
            TraversalOperator::AttrSplat(s) => d!("asp", s, json!([])),
            TraversalOperator::FullSplat(s) => d!("fsp", s, json!([])),
            TraversalOperator::GetAttr(i) => d!("attr", i, t(i.as_str())),
            TraversalOperator::LegacyIndex(i) => d!("leg", i, t(&i.value().to_string())),
            TraversalOperator::Index(e) => {
                json!({"tk": "idx", "k": "top", "opre": self.raw(o.decor().prefix()),
                       "osp": self.span(o.span()), "ix": self.expr(e)})
            }
        }
    }

    pub fn key(&self, k: &ObjectKey) -> Value {
        match k {
            ObjectKey::Ident(i) => self.id("id", i),
            ObjectKey::Expression(e) => self.expr(e),
        }
    }

    pub fn object(&self, v: &Object) -> Value {
        let mut m = self.node("obj", v);
        let ents = v
            .iter()
            .map(|(k, v)| {
                let asg = match v.assignment() {
                    ObjectValueAssignment::Colon if !self.bare => ":",
                    _ => "=",
                };
                let term = match v.terminator() {
                    ObjectValueTerminator::Comma if !self.bare => "comma",
                    ObjectValueTerminator::Newline if !self.bare => "nl",
                    _ => "none",
                };
                json!({"key": self.key(k), "asg": asg, "val": self.expr(v.expr()), "term": term})
            })
            .collect();
        m.insert("ents".into(), ents);
        m.insert("tr".into(), self.raw(Some(v.trailing())));
        m.into()
    }

    pub fn template(&self, v: &Template) -> Value {
        v.iter().map(|e| self.element(e)).collect()
    }

    pub fn element(&self, e: &Element) -> Value {
        match e {
            Element::Literal(l) => {
                json!({"k": "lit", "sp": self.span(l.span()), "lv": t(l)})
            }
            Element::Interpolation(i) => {
                json!({"k": "itp", "sp": self.span(i.span()), "st": self.strip(i.strip),
                       "e": self.expr(&i.expr)})
            }
            Element::Directive(d) => match &**d {
                Directive::If(d) => {
                    let els = d.else_expr.as_ref();
                    json!({"k": "ifd", "sp": self.span(d.span()),
                        "ist": self.strip(d.if_expr.strip),
                        "ipre": self.raw(Some(d.if_expr.preamble())),
                        "ic": self.expr(&d.if_expr.cond_expr),
                        "it": self.template(&d.if_expr.template),
                        "isp": self.span(d.if_expr.template.span()),
                        "hase": els.is_some(),
                        "est": els.map_or(json!([false, false]), |e| self.strip(e.strip)),
                        "epre": els.map_or(json!([]), |e| self.raw(Some(e.preamble()))),
                        "etr": els.map_or(json!([]), |e| self.raw(Some(e.trailing()))),
                        "et": els.map_or(json!([]), |e| self.template(&e.template)),
                        "esp": els.map_or(json!([]), |e| self.span(e.template.span())),
                        "nst": self.strip(d.endif_expr.strip),
                        "npre": self.raw(Some(d.endif_expr.preamble())),
                        "ntr": self.raw(Some(d.endif_expr.trailing()))})
                }
                Directive::For(d) => {
                    let f = &d.for_expr;
                    json!({"k": "fod", "sp": self.span(d.span()),
                        "fst": self.strip(f.strip),
                        "fpre": self.raw(Some(f.preamble())),
                        "hask": f.key_var.is_some(),
                        "kv": f.key_var.as_ref().map_or(self.no_id(), |i| self.id("id", i)),
                        "vv": self.id("id", &f.value_var),
                        "coll": self.expr(&f.collection_expr),
                        "ft": self.template(&f.template),
                        "fsp": self.span(f.template.span()),
                        "nst": self.strip(d.endfor_expr.strip),
                        "npre": self.raw(Some(d.endfor_expr.preamble())),
                        "ntr": self.raw(Some(d.endfor_expr.trailing()))})
                }
            },
        }
    }

    pub fn body(&self, b: &Body) -> Value {
        let mut m = self.node("body", b);
        m.insert("ss".into(), b.iter().map(|s| self.structure(s)).collect());
        m.insert("one".into(), json!(b.prefer_oneline() && !self.bare));
        m.insert("omit".into(), json!(b.prefer_omit_trailing_newline() && !self.bare));
        m.into()
    }

    pub fn structure(&self, s: &Structure) -> Value {
        match s {
            Structure::Attribute(a) => self.attr(a),
            Structure::Block(b) => self.block(b),
        }
    }

    pub fn attr(&self, a: &Attribute) -> Value {
        let mut m = self.node("attr", a);
        m.insert("key".into(), self.id("id", &a.key));
        m.insert("val".into(), self.expr(&a.value));
        m.into()
    }

    pub fn block(&self, b: &Block) -> Value {
        let mut m = self.node("block", b);
        m.insert("bid".into(), self.id("id", &b.ident));
        let labels = b
            .labels
            .iter()
            .map(|l| match l {
                BlockLabel::String(s) => {
                    let mut m = self.node("lstr", s);
                    m.insert("lsv".into(), t(s));
                    m.into()
                }
                BlockLabel::Ident(i) => self.id("lid", i),
            })
            .collect();
        m.insert("labels".into(), labels);
        m.insert("body".into(), self.body(&b.body));
        m.into()
    }
}
