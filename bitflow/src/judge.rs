//! Drives the interpreter over the witness crate's harness functions and compares the abstract
//! result of each with its specification (also a per-bit description), bit by bit.
use crate::bdd::*;
use crate::interp::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Default, Clone)]
struct Spec {
    name: String,
    cap: usize,
    nodes: Vec<(String, Vec<String>)>,
    assume: Option<String>,
    out: Option<Vec<String>>,
    equal: Option<String>,
}

fn parse(path: &str) -> Vec<Spec> {
    let txt = std::fs::read_to_string(path).expect("spec file");
    let mut v: Vec<Spec> = vec![];
    for l in txt.lines() {
        let mut t = l.split_ascii_whitespace();
        let Some(k) = t.next() else { continue };
        match k {
            "H" => {
                let name = t.next().unwrap().to_string();
                let cap = t.next().and_then(|x| x.parse().ok()).unwrap_or(32);
                v.push(Spec { name, cap, ..Default::default() });
            }
            "N" => {
                let op = t.next().unwrap().to_string();
                v.last_mut().unwrap().nodes.push((op, t.map(|x| x.to_string()).collect()));
            }
            "A" => v.last_mut().unwrap().assume = t.next().map(|x| x.to_string()),
            "O" => v.last_mut().unwrap().out = Some(t.map(|x| x.to_string()).collect()),
            "E" => v.last_mut().unwrap().equal = t.next().map(|x| x.to_string()),
            _ => panic!("bad spec line {l}"),
        }
    }
    v
}

struct Args<'tcx> {
    vals: Vec<(Val, Ty<'tcx>)>,
    assume: B,
    /// per argument: label, first variable, one-past-last variable
    ranges: Vec<(String, u32, u32)>,
    /// `&mut` arguments whose final contents are outputs
    outs: Vec<(Val, Ty<'tcx>, usize)>,
}

fn input<'tcx>(it: &mut Interp<'tcx>, ty: Ty<'tcx>, assume: &mut B) -> R<Val> {
    let lay = it.lay(ty)?;
    let n = lay.size.bytes() as usize;
    match ty.kind() {
        ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
            let b: Vec<B> = (0..n * 8).map(|_| it.fresh()).collect();
            Ok(val_of_bits(&b))
        }
        ty::Bool => {
            let x = it.fresh();
            Ok(val_of_bits(&[x, F, F, F, F, F, F, F]))
        }
        ty::Char => {
            let mut b: Vec<B> = (0..21).map(|_| it.fresh()).collect();
            b.resize(32, F);
            let hi = kbits(0x110000, 32);
            let ok = it.ii_lt(&b, &hi, false);
            let (s0, s1) = (kbits(0xD800, 32), kbits(0xE000, 32));
            let below = it.ii_lt(&b, &s0, false);
            let x = it.ii_lt(&b, &s1, false);
            let above = it.b.not(x);
            let ns = it.b.or(below, above);
            let ok = it.b.and(ok, ns);
            *assume = it.b.and(*assume, ok);
            Ok(val_of_bits(&b))
        }
        ty::Array(e, _) => {
            let es = it.lay(*e)?.size.bytes() as usize;
            let mut out = vec![];
            let cnt = if es == 0 { 0 } else { n / es };
            for _ in 0..cnt {
                out.extend(input(it, *e, assume)?);
            }
            Ok(out)
        }
        ty::Tuple(ts) => {
            let mut out: Val = vec![AByte::Un; n];
            for (i, t) in ts.iter().enumerate() {
                let v = input(it, t, assume)?;
                let o = lay.fields.offset(i).bytes() as usize;
                out[o..o + v.len()].clone_from_slice(&v);
            }
            Ok(out)
        }
        ty::Adt(d, a) if d.is_struct() => {
            let mut out: Val = vec![AByte::Un; n];
            for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                let ft = f.ty(it.tcx, a).skip_norm_wip();
                let v = input(it, ft, assume)?;
                let o = lay.fields.offset(i).bytes() as usize;
                out[o..o + v.len()].clone_from_slice(&v);
            }
            Ok(out)
        }
        _ => Err(format!("harness input of type {ty}")),
    }
}

fn args<'tcx>(it: &mut Interp<'tcx>, st: &mut State, inst: Instance<'tcx>, cap: usize) -> R<Args<'tcx>> {
    let tcx = it.tcx;
    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(inst.def_id()).instantiate_identity().skip_norm_wip());
    let mut a = Args { vals: vec![], assume: T, ranges: vec![], outs: vec![] };
    for (k, t) in sig.inputs().iter().enumerate() {
        let t = tcx.erase_and_anonymize_regions(*t);
        let s = it.nvars;
        let mut asm = a.assume;
        match t.kind() {
            ty::Ref(_, inner, m) => {
                let v = if let ty::Slice(e) = inner.kind() {
                    let mut len: Vec<B> = (0..63).map(|_| it.fresh()).collect();
                    len.push(F);
                    a.ranges.push((format!("arg{k}.len"), s, it.nvars));
                    let s = it.nvars;
                    let mut bytes = vec![];
                    for _ in 0..cap {
                        bytes.extend(input(it, *e, &mut asm)?);
                    }
                    a.ranges.push((format!("arg{k}"), s, it.nvars));
                    let id = it.fresh_alloc(st, bytes);
                    let mut v = Interp::ptr_to(id, 0);
                    v.extend(val_of_bits(&len));
                    v
                } else {
                    let x = input(it, *inner, &mut asm)?;
                    a.ranges.push((format!("arg{k}"), s, it.nvars));
                    let id = it.fresh_alloc(st, x);
                    Interp::ptr_to(id, 0)
                };
                if m.is_mut() {
                    a.outs.push((v.clone(), *inner, cap));
                }
                a.vals.push((v, t));
            }
            _ => {
                let v = input(it, t, &mut asm)?;
                a.ranges.push((format!("arg{k}"), s, it.nvars));
                a.vals.push((v, t));
            }
        }
        a.assume = asm;
    }
    st.pc = a.assume;
    Ok(a)
}

fn flat<'tcx>(it: &mut Interp<'tcx>, ty: Ty<'tcx>, v: &[AByte], path: &str, out: &mut Vec<(B, String)>) -> R<()> {
    let lay = it.lay(ty)?;
    let n = lay.size.bytes() as usize;
    match ty.kind() {
        ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
            let b = it.bits(&v[..n])?;
            for (i, x) in b.into_iter().enumerate() {
                out.push((x, format!("{path} bit {i}")));
            }
            Ok(())
        }
        ty::Bool => {
            let b = it.bits(&v[..1])?;
            if b[1..].to_vec().into_iter().any(|x| it.b.and(x, it.care) != F) {
                return Err("a bool holding more than one bit".into());
            }
            out.push((b[0], path.to_string()));
            Ok(())
        }
        ty::Array(e, _) => {
            let es = it.lay(*e)?.size.bytes() as usize;
            let cnt = if es == 0 { 0 } else { n / es };
            for i in 0..cnt {
                flat(it, *e, &v[i * es..(i + 1) * es], &format!("{path}[{i}]"), out)?;
            }
            Ok(())
        }
        ty::Tuple(ts) => {
            for (i, t) in ts.iter().enumerate() {
                let o = lay.fields.offset(i).bytes() as usize;
                flat(it, t, &v[o..], &format!("{path}.{i}"), out)?;
            }
            Ok(())
        }
        ty::Adt(d, a) if d.is_struct() => {
            for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                let ft = f.ty(it.tcx, a).skip_norm_wip();
                let o = lay.fields.offset(i).bytes() as usize;
                flat(it, ft, &v[o..], &format!("{path}.{}", f.name), out)?;
            }
            Ok(())
        }
        ty::Never => Ok(()),
        _ => Err(format!("harness output of type {ty}")),
    }
}

struct Run {
    outs: Option<Vec<(B, String)>>,
    assume: B,
    ranges: Vec<(String, u32, u32)>,
}

fn analyse<'tcx>(it: &mut Interp<'tcx>, inst: Instance<'tcx>, cap: usize) -> R<Run> {
    it.nvars = 0;
    let mut st = State { allocs: Default::default(), pc: T };
    let a = args(it, &mut st, inst, cap)?;
    let sig = it.tcx.instantiate_bound_regions_with_erased(it.tcx.fn_sig(inst.def_id()).instantiate_identity().skip_norm_wip());
    let rt = it.tcx.normalize_erasing_regions(it.env, ty::Unnormalized::new_wip(sig.output()));
    it.care = a.assume;
    let r = it.call(st, inst, a.vals, rustc_span::DUMMY_SP)?;
    let outs = match r {
        None => None,
        Some((s, v)) => {
            let mut o = vec![];
            flat(it, rt, &v, "ret", &mut o)?;
            for (k, (p, t, cap)) in a.outs.iter().enumerate() {
                let nm = format!("mut{k}");
                match t.kind() {
                    ty::Slice(e) => {
                        let es = it.lay(*e)?.size.bytes() as usize;
                        let v = it.ii_load(&s, &p[..8], es * cap)?;
                        for i in 0..*cap {
                            flat(it, *e, &v[i * es..], &format!("{nm}[{i}]"), &mut o)?;
                        }
                    }
                    _ => {
                        let n = it.lay(*t)?.size.bytes() as usize;
                        let v = it.ii_load(&s, p, n)?;
                        flat(it, *t, &v, &nm, &mut o)?;
                    }
                }
            }
            Some(o)
        }
    };
    Ok(Run { outs, assume: a.assume, ranges: a.ranges })
}

fn tok(it: &mut Interp<'_>, nodes: &[B], t: &str) -> R<Option<B>> {
    if t == "x" {
        return Ok(None);
    }
    let (neg, t) = match t.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let b = match t {
        "0" => F,
        "1" => T,
        _ => {
            let k: u32 = t[1..].parse().map_err(|_| format!("token {t}"))?;
            match &t[..1] {
                "v" => it.b.var(k),
                "n" => *nodes.get(k as usize).ok_or("node index")?,
                _ => return Err(format!("token {t}")),
            }
        }
    };
    Ok(Some(if neg { it.b.not(b) } else { b }))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cex(it: &Interp<'_>, b: B, ranges: &[(String, u32, u32)]) -> String {
    let asg: HashMap<u32, bool> = it.b.pick(b).into_iter().collect();
    let mut o = String::new();
    for (n, s, e) in ranges {
        let w = (e - s) as usize;
        let mut hex = String::new();
        // byte-wise, first byte first
        let mut i = 0;
        let mut bytes = vec![];
        while i < w {
            let mut x = 0u8;
            for k in 0..8.min(w - i) {
                if *asg.get(&(s + (i + k) as u32)).unwrap_or(&false) {
                    x |= 1 << k;
                }
            }
            bytes.push(x);
            i += 8;
        }
        if n.ends_with(".len") {
            let mut v = 0u64;
            for (k, x) in bytes.iter().enumerate().take(8) {
                v |= (*x as u64) << (8 * k);
            }
            let _ = write!(o, "{n}={v} ");
            continue;
        }
        for x in bytes {
            let _ = write!(hex, "{x:02x}");
        }
        let _ = write!(o, "{n}=0x[{hex}](bytes, least significant first) ");
    }
    o
}

fn var_name(ranges: &[(String, u32, u32)], v: u32) -> String {
    for (n, s, e) in ranges {
        if v >= *s && v < *e {
            return format!("{n}.bit{}", v - s);
        }
    }
    format!("v{v}")
}

pub fn run(tcx: TyCtxt<'_>, spec: &str, out: &str) {
    let _ = std::fs::write(format!("{out}.begun"), "");     // the macro has terminated
    let specs = parse(spec);
    let mut fns: HashMap<String, Instance<'_>> = HashMap::new();
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn) {
            continue;
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
        fns.insert(name, Instance::mono(tcx, did));
    }
    let dump = std::env::var("BITFLOW_DUMP").is_ok();
    let mut it = Interp::new(tcx);
    for (n, i) in &fns {
        if let Some((_, k)) = n.split_once("model__") {
            it.models.insert(k.to_string(), *i);
        }
    }
    let mut o = String::from("[\n");
    for (k, s) in specs.iter().enumerate() {
        if k > 0 {
            o.push_str(",\n");
        }
        it.reset();
        let r = if it.late() { Err("out of time".into()) } else { one(&mut it, s, &fns, dump) };
        let _ = write!(o, "{{\"name\":{}", js(&s.name));
        match r {
            Err(e) => {
                let tr: Vec<String> = it.stack.iter().map(|x| x.0.clone()).collect();
                let at = it.stack.last().map(|x| it.span(x.1)).unwrap_or_default();
                let _ = write!(o, ",\"error\":{},\"trace\":[{}],\"at\":{}", js(&e), tr.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), js(&at));
            }
            Ok(x) => o.push_str(&x),
        }
        let _ = write!(o, ",\"steps\":{},\"joins\":{},\"functions\":{},\"nodes\":{}}}", it.steps, it.joins, it.visited.len(), it.b.len());
    }
    o.push_str("\n]\n");
    std::fs::write(out, o).expect("write results");
}

fn one<'tcx>(it: &mut Interp<'tcx>, s: &Spec, fns: &HashMap<String, Instance<'tcx>>, dump: bool) -> R<String> {
    let inst = *fns.get(&s.name).ok_or("harness function not found")?;
    let run = analyse(it, inst, s.cap)?;
    let evs = it.events.clone();
    let mut nodes: Vec<B> = vec![];
    for (op, a) in &s.nodes {
        let mut v = vec![];
        for x in a {
            v.push(tok(it, &nodes, x)?.ok_or("x in node")?);
        }
        let r = match op.as_str() {
            "i" => it.b.ite(v[0], v[1], v[2]),
            "&" => v.iter().fold(T, |acc, x| it.b.and(acc, *x)),
            "|" => v.iter().fold(F, |acc, x| it.b.or(acc, *x)),
            "^" => it.b.xor(v[0], v[1]),
            _ => return Err(format!("op {op}")),
        };
        nodes.push(r);
    }
    let mut assume = run.assume;
    if let Some(a) = &s.assume {
        let b = tok(it, &nodes, a)?.ok_or("x assume")?;
        assume = it.b.and(assume, b);
    }
    let mut o = String::new();
    // reachable panics
    let mut ev = vec![];
    for e in &evs {
        let c = it.b.and(e.pc, assume);
        if c != F {
            let t: Vec<String> = e.trace.iter().map(|x| js(x)).collect();
            ev.push(format!("{{\"what\":{},\"when\":{},\"trace\":[{}]}}", js(&e.what), js(&cex(it, c, &run.ranges)), t.join(",")));
        }
    }
    let want: Option<Vec<Option<B>>> = if let Some(other) = &s.equal {
        let i2 = *fns.get(other).ok_or("comparison function not found")?;
        let r2 = analyse(it, i2, s.cap)?;
        r2.outs.map(|v| v.into_iter().map(|x| Some(x.0)).collect())
    } else if let Some(w) = &s.out {
        let mut v = vec![];
        for t in w {
            v.push(tok(it, &nodes, t)?);
        }
        Some(v)
    } else {
        None
    };
    let mut bad = vec![];
    let mut nbad = 0;
    let mut checked = 0;
    match (&run.outs, &want) {
        (Some(g), Some(w)) => {
            if g.len() != w.len() {
                return Err(format!("harness yields {} output bits, specification has {}", g.len(), w.len()));
            }
            for ((gb, path), wb) in g.iter().zip(w) {
                let Some(wb) = wb else { continue };
                checked += 1;
                if gb == wb {
                    continue;
                }
                let d = it.b.xor(*gb, *wb);
                let d = it.b.and(d, assume);
                if d == F {
                    continue;
                }
                nbad += 1;
                if bad.len() < 6 {
                    let rg = run.ranges.clone();
                    let nm = move |v: u32| var_name(&rg, v);
                    bad.push(format!(
                        "{{\"bit\":{},\"got\":{},\"want\":{},\"when\":{}}}",
                        js(path),
                        js(&it.b.show(*gb, &nm)),
                        js(&it.b.show(*wb, &nm)),
                        js(&cex(it, d, &run.ranges))
                    ));
                }
            }
        }
        (None, Some(_)) if evs.is_empty() => return Err("harness never returns".into()),
        _ => {}
    }
    if it.b.overflow {
        return Err("abstract value too large".into());
    }
    let _ = write!(o, ",\"bits\":{checked},\"panics\":[{}],\"nbad\":{nbad},\"bad\":[{}]", ev.join(","), bad.join(","));
    if dump {
        let rg = run.ranges.clone();
        let nm = move |v: u32| var_name(&rg, v);
        let g: Vec<String> = run.outs.iter().flatten().map(|(b, p)| js(&format!("{p} = {}", it.b.show(*b, &nm)))).collect();
        let _ = write!(o, ",\"dump\":[{}]", g.join(","));
    }
    Ok(o)
}
