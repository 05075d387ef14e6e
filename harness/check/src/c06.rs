//! C06: strict acceptance implies lenient acceptance with the same value.
use crate::common::*;
use crate::docs;
use mc::run::*;

pub fn spec(th: bool) -> Spec {
    let mut dfs = docs::families(th);
    dfs.push(crate::c11::doc_family(th));
    let fams = dfs
        .into_iter()
        .map(|d| {
            let g = d.r#gen.clone();
            Fam::new(&d.name, d.n, &d.what, move |i, cx| {
                let Some((t, ind)) = g(i) else {
                    cx.skip();
                    return;
                };
                for x in [false, true] {
                    let o = Opt { indent: ind, expand: x, ..BASE };
                    let a = dec(cx, &t, &o.o());
                    let Ok(a) = a else {
                        cx.cat("rejected by strict mode");
                        continue;
                    };
                    let b = dec(cx, &t, &o.strict(false).o());
                    cx.evals += 1;
                    cx.cat("accepted by strict mode");
                    if cx.evals % 16 == 0 {
                        cx.outcome(&a.json());
                    }
                    cx.sample(|| format!("{} {:?} -> {}", o.s(), t, a.json()));
                    if !matches!(&b, Ok(w) if w.same_ordered(&a)) {
                        cx.fail(
                            format!("{}{:?}", if x { "expand " } else { "" }, tag(&t)),
                            &[("text", tag(&t)), ("options", o.s()), ("strict", tag(&a.json())), ("lenient", tag(&show(&b)))],
                        );
                    }
                }
            })
        })
        .collect();
    Spec {
        id: "C06".into(),
        level: "model_checking",
        rule: "state = one document; with and without path expansion: if strict decoding gives a value then lenient decoding gives the equal value in the same member order".into(),
        fams,
        assumptions: vec![],
    }
}
