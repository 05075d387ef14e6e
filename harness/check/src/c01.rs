//! C01: decode(encode(v)) == v for every value of the bounded spaces and every layout.
use crate::common::*;
use mc::run::*;
use mc::space;

pub fn spec(th: bool) -> Spec {
    let fams = space::families(th)
        .into_iter()
        .map(|vf| {
            let lay: Vec<_> = layouts(vf.size).into_iter().map(|o| (o, o.o(), o.strict(false).o())).collect();
            let g = vf.r#gen.clone();
            Fam::new(vf.name, vf.n, &vf.what, move |i, cx| {
                let v = g(i);
                for (o, st, le) in &lay {
                    let t = match enc(cx, &v, st) {
                        Ok(t) => t,
                        Err(e) => {
                            cx.evals += 1;
                            cx.fail(format!("encode {} {}", o.s(), tag(&v.json())), &[("options", o.s()), ("value", tag(&v.json())), ("encode", e)]);
                            continue;
                        }
                    };
                    cx.outcome(&t);
                    cx.sample(|| format!("{} {} -> {:?}", o.s(), v.json(), t));
                    for (so, s) in [(st, true), (le, false)] {
                        let r = dec(cx, &t, so);
                        cx.evals += 1;
                        if !matches!(&r, Ok(w) if w.same(&v)) {
                            cx.fail(
                                format!("{} {}", o.strict(s).s(), tag(&v.json())),
                                &[("options", o.strict(s).s()), ("value", tag(&v.json())), ("text", tag(&t)), ("decoded", tag(&show(&r)))],
                            );
                        }
                    }
                }
            })
        })
        .collect();
    Spec {
        id: "C01".into(),
        level: "model_checking",
        rule: "state = one JSON value; for every layout (delimiter x indent, all 15 on small families, 5 or 2 on large) and both strictness modes decode(encode(v)) equals v".into(),
        fams,
        assumptions: vec!["values are compared as JSON: numbers mathematically, objects as maps without regard to member order".into()],
    }
}
