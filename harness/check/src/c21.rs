//! C21: an option changes only what it is documented to change.
use crate::common::*;
use crate::docs;
use mc::run::*;
use mc::space;

pub fn spec(th: bool) -> Spec {
    let mut fams: Vec<Fam> = Vec::new();
    let mut dfs = docs::families(th);
    dfs.push(crate::c11::doc_family(th));
    for d in dfs {
        let g = d.r#gen.clone();
        fams.push(Fam::new(&d.name, d.n, &d.what, move |i, cx| {
            let Some((t, ind)) = g(i) else {
                cx.skip();
                return;
            };
            for strict in [true, false] {
                let mut plain = None;
                for expand in [false, true] {
                    let b = Opt { indent: ind, strict, expand, ..BASE };
                    let base = dec(cx, &t, &b.o());
                    cx.cat(if base.is_ok() { "decoding: a value" } else { "decoding: an error" });
                    if cx.evals % 16 == 0 {
                        cx.outcome(&show(&base));
                    }
                    let k = (i % 3) as usize;
                    let mut others = vec![
                        Opt { delim: '|', fold: Some(None), ..b },
                        Opt { delim: '\t', fold: Some(Some(1 + k)), ..b },
                    ];
                    if k == 0 {
                        others.push(Opt { fold: Some(Some(0)), ..b });
                        others.push(Opt { delim: ['|', '\t'][(i / 3 % 2) as usize], ..b });
                    }
                    for o in others {
                        let r = dec(cx, &t, &o.o());
                        cx.evals += 1;
                        let same = match (&base, &r) {
                            (Ok(a), Ok(b)) => a.same_ordered(b),
                            (Err(a), Err(b)) => a == b,
                            _ => false,
                        };
                        if !same {
                            cx.fail(
                                format!("{} / {} {:?}", b.s(), o.s(), tag(&t)),
                                &[("text", tag(&t)), ("options", b.s()), ("other options", o.s()), ("decoded", tag(&show(&base))), ("decoded with the others", tag(&show(&r)))],
                            );
                        }
                    }
                    // expansion has nothing to do where no dot stands
                    if let Some(p) = &plain {
                        if !t.contains('.') {
                            cx.evals += 1;
                            let same = match (p, &base) {
                                (Ok(a), Ok(b)) => J_same(a, b),
                                (Err(a), Err(b)) => a == b,
                                // merging the members of one object twice over
                                (Ok(a), Err(_)) => strict && has_repeat(a),
                                _ => false,
                            };
                            if !same {
                                cx.fail(
                                    format!("expand {} {:?}", b.s(), tag(&t)),
                                    &[("text", tag(&t)), ("options", b.s()), ("without expansion", tag(&show(p))), ("with expansion", tag(&show(&base)))],
                                );
                            }
                        }
                    }
                    plain = Some(base);
                }
            }
        }));
    }
    for vf in space::families(th) {
        let lay = layouts(if vf.size == 0 { 1 } else { 2 });
        let g = vf.r#gen.clone();
        let few = vf.size >= 2;
        fams.push(Fam::new(&format!("enc-{}", vf.name), vf.n, &vf.what, move |i, cx| {
            let v = g(i);
            for l in &lay {
                let off = enc(cx, &v, &l.o());
                if let Ok(t) = &off {
                    cx.outcome(t);
                }
                cx.cat("encoding");
                let mut check = |cx: &mut Cx, want: &Result<String, String>, w: String, o: toon::Options| {
                    let r = enc(cx, &v, &o);
                    cx.evals += 1;
                    if r != *want {
                        cx.fail(
                            format!("{} {} {}", l.s(), w, tag(&v.json())),
                            &[("options", l.s()), ("change", w), ("value", tag(&v.json())), ("expected", tag(&shows(want))), ("encoded", tag(&shows(&r)))],
                        );
                    }
                };
                // strictness and expansion belong to decoding, the depth to folding
                let mut o = l.strict(false).o();
                o.expand_paths = toon::ExpandPaths::Safe;
                check(cx, &off, "lenient, expansion on".into(), o);
                for d in [0, 1, 2, 7] {
                    if few && d != 2 {
                        continue;
                    }
                    let mut o = l.o();
                    o.flatten_depth = Some(d);
                    check(cx, &off, format!("flatten depth {} without folding", d), o);
                }
                // one segment is no folding at all
                for d in [0, 1] {
                    check(cx, &off, format!("folding at depth {}", d), Opt { fold: Some(Some(d)), ..*l }.o());
                }
                let fold = enc(cx, &v, &Opt { fold: Some(None), ..*l }.o());
                check(cx, &fold, "folding, depth beyond every chain".into(), Opt { fold: Some(Some(1000)), ..*l }.o());
                check(cx, &fold, "folding, greatest depth".into(), Opt { fold: Some(Some(usize::MAX)), ..*l }.o());
                let mut o = Opt { fold: Some(None), ..*l }.strict(false).o();
                o.expand_paths = toon::ExpandPaths::Safe;
                check(cx, &fold, "folding, lenient, expansion on".into(), o);
            }
        }));
    }
    fams.push(Fam::new("default", 1, "the default options against the documented ones", |_, cx| {
        let o = toon::Options::default();
        cx.evals += 1;
        let t = format!("{:?}", o);
        cx.outcome(&t);
        let ok = o.delimiter == toon::Delimiter::Comma
            && o.strict
            && o.indent == 2
            && o.key_folding == toon::KeyFolding::Off
            && o.flatten_depth.is_none()
            && o.expand_paths == toon::ExpandPaths::Off;
        if !ok {
            cx.fail("default options".into(), &[("options", t)]);
        }
    }));
    Spec {
        id: "C21".into(),
        level: "model_checking",
        rule: "state = one document (decoded under option sets that differ in encoding-only options, and with and without expansion if it has no dot) or one value (encoded under option sets that differ in decoding-only options, in a flatten depth without folding, in depths 0 and 1, and in depths beyond its chains); results must be identical".into(),
        fams,
        assumptions: vec![],
    }
}
#[allow(non_snake_case)]
fn J_same(a: &mc::val::J, b: &mc::val::J) -> bool {
    a.clone().dedup().same(&b.clone().dedup()) || has_repeat(a)
}
/// does some object have a key twice?
fn has_repeat(v: &mc::val::J) -> bool {
    use mc::val::J;
    match v {
        J::Arr(a) => a.iter().any(has_repeat),
        J::Obj(o) => {
            let mut k: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
            k.sort_unstable();
            let n = k.len();
            k.dedup();
            k.len() < n || o.iter().any(|(_, v)| has_repeat(v))
        }
        _ => false,
    }
}
