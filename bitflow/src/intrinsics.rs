//! Transfer functions of the compiler intrinsics reached from generated code and the std shims
//! it calls.
use crate::bdd::*;
use crate::interp::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};

pub enum Ires {
    Done(State, Val),
    Diverge,
    Fallback(State),
}

pub fn intrinsic<'tcx>(
    it: &mut Interp<'tcx>,
    mut st: State,
    def: DefId,
    inst: Instance<'tcx>,
    av: &[(Val, Ty<'tcx>)],
    dest: TyAndLayout<'tcx>,
) -> R<Ires> {
    let tcx = it.tcx;
    let name = tcx.item_name(def).to_string();
    let n = dest.size.bytes() as usize;
    let targ = |i: usize| inst.args.types().nth(i);
    let signed = |t: Ty<'tcx>| matches!(t.kind(), ty::Int(_));
    let boolv = |c: B| -> Val { vec![AByte::Bits([c, F, F, F, F, F, F, F])] };
    let done = |st: State, v: Val| Ok(Ires::Done(st, v));
    let bin = |it: &mut Interp<'tcx>, st: State, op: BinOp| -> R<Ires> {
        let v = it.ii_binop(&st, op, av[0].clone(), av[1].clone(), dest)?;
        Ok(Ires::Done(st, v))
    };
    match name.as_str() {
        "size_of" => {
            let l = it.lay(targ(0).unwrap())?;
            done(st, kval(l.size.bytes() as u128, n))
        }
        "align_of" | "min_align_of" => {
            let l = it.lay(targ(0).unwrap())?;
            done(st, kval(l.align.abi.bytes() as u128, n))
        }
        "size_of_val" | "align_of_val" => {
            let t = targ(0).unwrap();
            let l = it.lay(t)?;
            if l.is_sized() {
                let x = if name == "size_of_val" { l.size.bytes() } else { l.align.abi.bytes() };
                return done(st, kval(x as u128, n));
            }
            match t.kind() {
                ty::Slice(_) | ty::Str => {
                    let es = match t.kind() {
                        ty::Slice(e) => it.lay(*e)?,
                        _ => it.lay(tcx.types.u8)?,
                    };
                    if name == "align_of_val" {
                        return done(st, kval(es.align.abi.bytes() as u128, n));
                    }
                    let len = (av[0].0[8..].to_vec(), tcx.types.usize);
                    let k = (kval(es.size.bytes() as u128, 8), tcx.types.usize);
                    let v = it.ii_binop(&st, BinOp::Mul, len, k, dest)?;
                    done(st, v)
                }
                _ => Err(format!("{name} of {t}")),
            }
        }
        "needs_drop" => {
            let b = targ(0).unwrap().needs_drop(tcx, it.env);
            done(st, kval(b as u128, 1))
        }
        "type_name" => Err("type_name".into()),
        "variant_count" => {
            let c = match targ(0).unwrap().kind() {
                ty::Adt(a, _) => a.variants().len(),
                _ => 0,
            };
            done(st, kval(c as u128, n))
        }
        "transmute" | "transmute_unchecked" | "black_box" | "read_via_copy_" => done(st, av[0].0.clone()),
        "forget" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => {
            done(st, vec![])
        }
        "likely" | "unlikely" => done(st, av[0].0.clone()),
        "select_unpredictable" => {
            let c = it.bits(&av[0].0)?[0];
            let (a, b) = (it.bits(&av[1].0)?, it.bits(&av[2].0)?);
            let r = it.ii_mux(c, &a, &b);
            done(st, val_of_bits(&r))
        }
        "abort" | "abort_immediate" | "breakpoint" | "unreachable" => {
            let pc = st.pc;
            it.ii_event(pc, &format!("intrinsic {name} reached"));
            Ok(Ires::Diverge)
        }
        "ub_checks" | "contract_checks" | "is_val_statically_known" => done(st, kval(0, 1)),
        "overflow_checks" => done(st, kval(1, 1)),
        "caller_location" => {
            let cv = tcx.span_as_caller_location(rustc_span::DUMMY_SP);
            let v = it.ii_const_value(cv, n)?;
            done(st, v)
        }
        "const_eval_select" => {
            // (args tuple, const fn, runtime fn): the runtime function is the one analysed
            let f = av[2].1;
            let (d, a) = match f.kind() {
                ty::FnDef(d, a) => (*d, a.no_bound_vars().ok_or("bound args")?),
                _ => return Err("const_eval_select".into()),
            };
            let i = Instance::try_resolve(tcx, it.env, d, a).map_err(|_| "resolve".to_string())?.ok_or("resolve")?;
            let ty::Tuple(ts) = av[0].1.kind() else { return Err("ces".into()) };
            let l = it.lay(av[0].1)?;
            let mut args = vec![];
            for (k, t) in ts.iter().enumerate() {
                let o = l.fields.offset(k).bytes() as usize;
                let s = it.lay(t)?.size.bytes() as usize;
                args.push((av[0].0[o..o + s].to_vec(), t));
            }
            Ok(match it.call(st, i, args, rustc_span::DUMMY_SP)? {
                Some((s, v)) => Ires::Done(s, v),
                None => Ires::Diverge,
            })
        }
        "wrapping_add" | "unchecked_add" => bin(it, st, BinOp::Add),
        "wrapping_sub" | "unchecked_sub" => bin(it, st, BinOp::Sub),
        "wrapping_mul" | "unchecked_mul" => bin(it, st, BinOp::Mul),
        "unchecked_shl" => bin(it, st, BinOp::Shl),
        "unchecked_shr" => bin(it, st, BinOp::Shr),
        "unchecked_div" | "exact_div" => bin(it, st, BinOp::Div),
        "unchecked_rem" => bin(it, st, BinOp::Rem),
        "disjoint_bitor" => bin(it, st, BinOp::BitOr),
        "three_way_compare" => bin(it, st, BinOp::Cmp),
        "add_with_overflow" => bin(it, st, BinOp::AddWithOverflow),
        "sub_with_overflow" => bin(it, st, BinOp::SubWithOverflow),
        "mul_with_overflow" => bin(it, st, BinOp::MulWithOverflow),
        "saturating_add" | "saturating_sub" => {
            let s = signed(av[0].1);
            let op = if name.ends_with("add") { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
            let (a, b) = (it.bits(&av[0].0)?, it.bits(&av[1].0)?);
            let (r, o) = it.ii_ovf(op, &a, &b, s);
            let w = a.len();
            let sat = if s {
                // MAX when the first operand is non-negative, MIN otherwise
                let neg = a[w - 1];
                let pos = it.b.not(neg);
                let mut v = vec![pos; w];
                v[w - 1] = neg;
                v
            } else if name.ends_with("add") {
                vec![T; w]
            } else {
                vec![F; w]
            };
            let r = it.ii_mux(o, &sat, &r);
            done(st, val_of_bits(&r))
        }
        "bswap" => {
            let mut v = av[0].0.clone();
            v.reverse();
            done(st, v)
        }
        "bitreverse" => {
            let mut b = it.bits(&av[0].0)?;
            b.reverse();
            done(st, val_of_bits(&b))
        }
        "rotate_left" | "rotate_right" => {
            let b = it.bits(&av[0].0)?;
            let a = it.bits(&av[1].0)?;
            let w = b.len();
            let k = kget(&a).ok_or("rotate by an abstract amount")? as usize % w;
            let k = if name == "rotate_left" { k } else { (w - k) % w };
            let r: Vec<B> = (0..w).map(|i| b[(i + w - k) % w]).collect();
            done(st, val_of_bits(&r))
        }
        "ctpop" => {
            let b = it.bits(&av[0].0)?;
            let mut acc = kbits(0, n * 8);
            let z = kbits(0, n * 8);
            for x in b {
                acc = it.ii_addc(&acc, &z, x).0;
            }
            done(st, val_of_bits(&acc))
        }
        "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
            let mut b = it.bits(&av[0].0)?;
            if name.starts_with("ctlz") {
                b.reverse();
            }
            let mut acc = kbits(b.len() as u128, n * 8);
            for i in (0..b.len()).rev() {
                let k = kbits(i as u128, n * 8);
                acc = it.ii_mux(b[i], &k, &acc);
            }
            done(st, val_of_bits(&acc))
        }
        "discriminant_value" => {
            let t = targ(0).unwrap();
            let l = it.lay(t)?;
            let v = it.ii_load(&st, &av[0].0, l.size.bytes() as usize)?;
            let d = it.ii_discr(&v, l)?;
            done(st, val_of_bits(&d))
        }
        "offset" | "arith_offset" => {
            let t = av[0].1.builtin_deref(true).ok_or("offset")?;
            let sz = it.lay(t)?.size.bytes() as i64;
            let v = it.ii_ptr_add(&st, &av[0].0, &av[1].0, sz)?;
            done(st, v)
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let t = targ(0).unwrap();
            let sz = it.lay(t)?.size.bytes();
            let (a, b) = (it.bits(&av[0].0)?, it.bits(&av[1].0)?);
            let nb = it.ii_nots(&b);
            let d = it.ii_addc(&a, &nb, T).0;
            let k = kbits(sz as u128, 64);
            let q = if sz == 1 { d } else { it.ii_divrem(&d, &k, true).0 };
            done(st, val_of_bits(&q))
        }
        "ptr_guaranteed_cmp" => done(st, kval(2, 1)),
        "ptr_mask" => {
            let (a, b) = (it.bits(&av[0].0)?, it.bits(&av[1].0)?);
            let r: Vec<B> = (0..64).map(|i| it.b.and(a[i], b[i])).collect();
            done(st, val_of_bits(&r))
        }
        "ptr_metadata" => done(st, av[0].0.get(8..).unwrap_or(&[]).to_vec()),
        "aggregate_raw_ptr" => {
            let mut v = av[0].0[..8].to_vec();
            v.extend(av[1].0.iter().cloned());
            done(st, v)
        }
        "slice_get_unchecked" => {
            let inner = dest.ty.builtin_deref(true).ok_or("slice_get")?;
            let sz = it.lay(inner)?.size.bytes() as i64;
            let v = it.ii_ptr_add(&st, &av[0].0[..8], &av[1].0, sz)?;
            done(st, v)
        }
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let v = it.ii_load(&st, &av[0].0, n)?;
            done(st, v)
        }
        "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
            let v = av[1].0.clone();
            it.ii_store(&mut st, &av[0].0, &v)?;
            done(st, vec![])
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
            let sz = it.lay(targ(0).unwrap())?.size.bytes() as usize;
            it.copy(&mut st, &av[0].0, &av[1].0, &av[2].0, sz)?;
            done(st, vec![])
        }
        "write_bytes" | "volatile_set_memory" => {
            let sz = it.lay(targ(0).unwrap())?.size.bytes() as usize;
            let nb = it.bits(&av[2].0)?;
            let k = kget(&nb).ok_or("write_bytes of abstract length")? as usize * sz;
            let v: Val = vec![av[1].0[0].clone(); k];
            it.ii_store(&mut st, &av[0].0, &v)?;
            done(st, vec![])
        }
        "typed_swap_nonoverlapping" => {
            let sz = it.lay(targ(0).unwrap())?.size.bytes() as usize;
            let a = it.ii_load(&st, &av[0].0, sz)?;
            let b = it.ii_load(&st, &av[1].0, sz)?;
            it.ii_store(&mut st, &av[0].0, &b)?;
            it.ii_store(&mut st, &av[1].0, &a)?;
            done(st, vec![])
        }
        "raw_eq" => {
            let sz = it.lay(targ(0).unwrap())?.size.bytes() as usize;
            let a = it.ii_load(&st, &av[0].0, sz)?;
            let b = it.ii_load(&st, &av[1].0, sz)?;
            let (a, b) = (it.bits(&a)?, it.bits(&b)?);
            let e = it.ii_eq(&a, &b);
            done(st, boolv(e))
        }
        "compare_bytes" => {
            let nb = it.bits(&av[2].0)?;
            let vals = it.ii_feas(&nb, st.pc)?;
            let mut acc = kbits(0, 32);
            for (k, g) in vals {
                let a = it.ii_load(&st, &av[0].0, k as usize)?;
                let b = it.ii_load(&st, &av[1].0, k as usize)?;
                let mut r = kbits(0, 32);
                for i in (0..k as usize).rev() {
                    let (x, y) = (it.bits(&a[i..i + 1])?, it.bits(&b[i..i + 1])?);
                    let e = it.ii_eq(&x, &y);
                    let l = it.ii_lt(&x, &y, false);
                    let (m1, p1) = (kbits(u32::MAX as u128, 32), kbits(1, 32));
                    let d = it.ii_mux(l, &m1, &p1);
                    r = it.ii_mux(e, &r, &d);
                }
                acc = it.ii_mux(g, &r, &acc);
            }
            done(st, val_of_bits(&acc))
        }
        "unchecked_funnel_shl" | "unchecked_funnel_shr" => {
            let (a, b, s) = (it.bits(&av[0].0)?, it.bits(&av[1].0)?, it.bits(&av[2].0)?);
            let w = a.len();
            let mut cat = b.clone();
            cat.extend(a);
            let r = if name.ends_with("shl") {
                it.ii_shift(&cat, &s, true)[w..].to_vec()
            } else {
                it.ii_shift(&cat, &s, false)[..w].to_vec()
            };
            done(st, val_of_bits(&r))
        }
        "fabs" => {
            let mut b = it.bits(&av[0].0)?;
            let k = b.len() - 1;
            b[k] = F;
            done(st, val_of_bits(&b))
        }
        _ => {
            if tcx.intrinsic(def).map(|i| i.must_be_overridden).unwrap_or(true) {
                Err(format!("intrinsic {name}"))
            } else {
                Ok(Ires::Fallback(st))
            }
        }
    }
}
