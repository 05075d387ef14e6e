//! C19: one decode-encode pass normalizes; a second changes nothing.
use crate::common::*;
use crate::docs;
use mc::run::*;

pub fn spec(th: bool) -> Spec {
    let fams = docs::families(th)
        .into_iter()
        .map(|d| {
            let g = d.r#gen.clone();
            Fam::new(&d.name, d.n, &d.what, move |i, cx| {
                let Some((t, ind)) = g(i) else {
                    cx.skip();
                    return;
                };
                let mut seen: Option<mc::val::J> = None;
                for st in [true, false] {
                    let o = Opt { indent: ind, strict: st, ..BASE };
                    let Ok(v) = dec(cx, &t, &o.o()) else {
                        cx.cat("rejected");
                        continue;
                    };
                    let v = v.dedup();
                    if let Some(w) = &seen {
                        if w.same_ordered(&v) {
                            continue;
                        }
                    }
                    cx.cat("accepted");
                    let lay = Opt { delim: DELIMS[(i % 3) as usize], ..o };
                    let e1 = enc(cx, &v, &lay.o());
                    cx.evals += 1;
                    let bad = |cx: &mut Cx, what: &str, e1: String, got: String| {
                        cx.fail(
                            format!("{} {:?}", lay.s(), tag(&t)),
                            &[("text", tag(&t)), ("options", lay.s()), ("value", tag(&v.json())), ("encoded", tag(&e1)), ("what", what.into()), ("got", tag(&got))],
                        );
                    };
                    let Ok(e1) = e1 else {
                        bad(cx, "encoding the decoded value fails", String::new(), shows(&e1));
                        continue;
                    };
                    if cx.evals % 16 == 0 {
                        cx.outcome(&e1);
                    }
                    cx.sample(|| format!("{} {:?} -> {:?}", lay.s(), t, e1));
                    let v2 = dec(cx, &e1, &lay.o());
                    let Ok(w2) = &v2 else {
                        bad(cx, "re-decoding fails", e1, show(&v2));
                        continue;
                    };
                    if !w2.same(&v) {
                        bad(cx, "re-decoding gives another value", e1, show(&v2));
                        continue;
                    }
                    let e2 = enc(cx, w2, &lay.o());
                    if e2.as_ref() != Ok(&e1) {
                        bad(cx, "re-encoding gives another text", e1, shows(&e2));
                    }
                    seen = Some(v);
                }
            })
        })
        .collect();
    Spec {
        id: "C19".into(),
        level: "model_checking",
        rule: "state = one document; in strict and in lenient mode, if it decodes to v: encode(v) decodes (strictly) to v and re-encodes to the same bytes".into(),
        fams,
        assumptions: vec!["repeated keys in one object are read as a JSON map reads them: the last one wins".into()],
    }
}
