//! C20: every way of decoding a document gives the same result.
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::val::J;
use serde::de::IgnoredAny;
use std::collections::BTreeMap;

fn text<T>(r: toon::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{}", e))
}
/// a wrapper that is transparent to serde
#[derive(serde::Deserialize)]
struct New(J);

fn from_json(v: &serde_json::Value) -> J {
    match v {
        serde_json::Value::Null => J::Null,
        serde_json::Value::Bool(b) => J::Bool(*b),
        serde_json::Value::String(s) => J::Str(s.clone()),
        serde_json::Value::Array(a) => J::Arr(a.iter().map(from_json).collect()),
        serde_json::Value::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
        serde_json::Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                J::Num(mc::val::N::U(u))
            } else if let Some(i) = n.as_i64() {
                J::Num(mc::val::N::I(i))
            } else {
                J::Num(mc::val::N::F(n.as_f64().unwrap()))
            }
        }
    }
}

pub fn spec(th: bool) -> Spec {
    let mut dfs = docs::families(th);
    dfs.push(crate::c11::doc_family(th));
    let fams = dfs
        .into_iter()
        .map(|d| {
            let g = d.r#gen.clone();
            Fam::new(&d.name, d.n, &d.what, move |i, cx| {
                let Some((t, ind)) = g(i) else {
                    cx.skip();
                    return;
                };
                for o in [
                    Opt { indent: ind, strict: i % 2 == 0, expand: i % 4 >= 2, ..BASE },
                    Opt { indent: ind, strict: i % 2 == 1, expand: i % 4 >= 2, ..BASE },
                ] {
                    let oo = o.o();
                    let base = dec(cx, &t, &oo);
                    cx.cat(if base.is_ok() { "a value" } else { "an error" });
                    if cx.evals % 16 == 0 {
                        cx.outcome(&show(&base));
                    }
                    cx.sample(|| format!("{} {:?} -> {}", o.s(), t, show(&base)));
                    let check = |cx: &mut Cx, what: &str, got: Result<J, String>, ordered: bool| {
                        cx.evals += 1;
                        cx.ops += 1;
                        let same = match (&base, &got) {
                            (Ok(a), Ok(b)) => {
                                if ordered {
                                    a.same_ordered(b)
                                } else {
                                    a.clone().dedup().same(&b.clone().dedup())
                                }
                            }
                            (Err(a), Err(b)) => a == b,
                            _ => false,
                        };
                        if !same {
                            cx.fail(
                                format!("{} {} {:?}", what, o.s(), tag(&t)),
                                &[("text", tag(&t)), ("options", o.s()), ("entry", what.into()), ("decode_from_str", tag(&show(&base))), ("got", tag(&show(&got)))],
                            );
                        }
                    };
                    let r = guarded(|| text(toon::de::from_str::<J>(&t, &oo)));
                    check(cx, "de::from_str", r, true);
                    let r = guarded(|| text(toon::decode_from_reader::<_, J>(t.as_bytes(), &oo)));
                    check(cx, "decode_from_reader", r, true);
                    let r = guarded(|| text(toon::decode_from_reader::<_, New>(std::io::Cursor::new(t.as_bytes()), &oo).map(|n| n.0)));
                    check(cx, "decode_from_reader into a newtype", r, true);
                    let r = guarded(|| text(toon::decode_from_str::<serde_json::Value>(&t, &oo).map(|v| from_json(&v))));
                    check(cx, "decode_from_str into serde_json::Value", r, false);
                    let r = guarded(|| text(toon::decode_from_str::<IgnoredAny>(&t, &oo)));
                    check(cx, "decode_from_str into IgnoredAny", r.map(|_| base.clone().unwrap_or(J::Null)), true);
                    if let Ok(J::Obj(_)) = &base {
                        let r = guarded(|| text(toon::decode_from_str::<BTreeMap<String, J>>(&t, &oo).map(|m| J::Obj(m.into_iter().collect()))));
                        check(cx, "decode_from_str into a map", r, false);
                    }
                    // the parser's entry points with an error channel: indentation 2, no expansion, and no
                    // check of the indentation by themselves
                    if !o.expand && ind == 2 && (base.is_ok() || !o.strict) {
                        let val = |r: Result<toon::value::Value, toon::Error>| {
                            text(r).and_then(|v| <J as serde::Deserialize>::deserialize(toon::de::Deserializer::from_value(v)).map_err(|e| e.to_string()))
                        };
                        let r = guarded(|| val(toon::decode::parser::parse_to_value_with_strict(&t, o.strict)));
                        check(cx, "decode::parser::parse_to_value_with_strict", r, true);
                        let r = guarded(|| val(toon::decode::parser::parse_to_internal_value_from_lines(toon::decode::scanner::scan(&t), o.strict)));
                        check(cx, "decode::parser::parse_to_internal_value_from_lines", r, true);
                        if base.is_ok() && !o.strict {
                            let r = guarded(|| val(Ok(toon::decode::parser::parse_to_internal_value(&t))));
                            check(cx, "decode::parser::parse_to_internal_value", r, true);
                        }
                    }
                    // the parser's own entry point: lenient, indentation 2, no expansion
                    if base.is_ok() && !o.strict && !o.expand && ind == 2 {
                        let r = guarded(|| Ok(from_json(&toon::decode::parser::parse_to_value(&t))));
                        check(cx, "decode::parser::parse_to_value", r, false);
                    }
                }
            })
        })
        .collect();
    Spec {
        id: "C20".into(),
        level: "model_checking",
        rule: "state = one document; in strict and lenient mode every decoding entry point and every catch-all target gives the value, or the error with the same message and line, that decode_from_str gives".into(),
        fams,
        assumptions: vec!["parse_to_value has no error channel, so it is compared on documents that lenient decoding accepts".into()],
    }
}
