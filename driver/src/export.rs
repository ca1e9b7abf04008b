//! Monomorphised MIR exporter.
use crate::json::J;
use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_const_eval::interpret::{OpTy, Projectable};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;

/// Modules of `core`/`alloc` whose functions are followed like the code's own.
/// Everything else outside the subject crates is a leaf known by its path.
const FOLLOW: &[&str] = &[
    "std::option",
    "std::result",
    "std::ops",
    "std::convert",
    "std::mem::replace",
    "std::mem::take",
    "std::mem::swap",
    "std::mem::drop",
    "std::mem::MaybeUninit",
    "std::mem::maybe_uninit",
    "std::cmp",
    "std::clone",
    "std::borrow",
    "std::iter",
    "std::default",
    "std::bool",
    "std::any",
    "std::error",
    "std::tuple",
];
const FOLLOW_CRATES: &[&str] = &["static_xml"];

pub struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_queue: Vec<Instance<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<Option<J>>,
    vtables: HashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
    vtable_out: Vec<J>,
    /// The fixture's `sxm_*` functions.
    models: HashMap<String, DefId>,
}


impl<'tcx> Ex<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths_if_doc_hidden!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::N;
        }
        let l = sm.lookup_char_pos(sp.lo());
        J::S(format!(
            "{}:{}",
            l.file.name.prefer_local_unconditionally(),
            l.line
        ))
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(None);
        let j = self.ty_desc(t);
        self.type_out[i] = Some(j);
        i
    }

    fn ty_desc(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("name", J::S(name))];
        let k = |o: &mut Vec<(&'static str, J)>, s: &str| o.push(("kind", J::s(s)));
        match *t.kind() {
            TyKind::Bool => k(&mut o, "bool"),
            TyKind::Char => k(&mut o, "char"),
            TyKind::Int(_) => {
                k(&mut o, "int");
                o.push(("bits", J::u(t.primitive_size(tcx).bits() as usize)));
            }
            TyKind::Uint(_) => {
                k(&mut o, "uint");
                o.push(("bits", J::u(t.primitive_size(tcx).bits() as usize)));
            }
            TyKind::Float(_) => k(&mut o, "float"),
            TyKind::Str => k(&mut o, "str"),
            TyKind::Never => k(&mut o, "never"),
            TyKind::Slice(e) => {
                k(&mut o, "slice");
                let e = self.ty(e);
                o.push(("elem", J::u(e)));
            }
            TyKind::Array(e, n) => {
                k(&mut o, "array");
                let e = self.ty(e);
                o.push(("elem", J::u(e)));
                let n = n.try_to_target_usize(tcx);
                o.push(("len", n.map_or(J::N, |n| J::u(n as usize))));
            }
            TyKind::Ref(_, e, m) => {
                k(&mut o, "ref");
                let e = self.ty(e);
                o.push(("elem", J::u(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::RawPtr(e, m) => {
                k(&mut o, "ptr");
                let e = self.ty(e);
                o.push(("elem", J::u(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::Tuple(ts) => {
                k(&mut o, "tuple");
                let v = ts.iter().map(|t| J::u(self.ty(t))).collect();
                o.push(("elems", J::A(v)));
            }
            TyKind::FnDef(d, args) => {
                k(&mut o, "fndef");
                let args = tcx.erase_and_anonymize_regions(args).skip_binder();
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                    let f = self.inst(inst);
                    o.push(("fn", f));
                }
                o.push(("path", J::S(self.path(d))));
            }
            TyKind::FnPtr(..) => k(&mut o, "fnptr"),
            TyKind::Dynamic(preds, _) => {
                k(&mut o, "dyn");
                o.push(("trait", preds.principal_def_id().map_or(J::N, |d| J::S(self.path(d)))));
            }
            TyKind::Closure(d, args) => {
                k(&mut o, "closure");
                o.push(("path", J::S(self.path(d))));
                let v = args.as_closure().upvar_tys().iter().map(|t| J::u(self.ty(t))).collect();
                o.push(("elems", J::A(v)));
                let inst = Instance::new_raw(d, args);
                let f = self.inst(inst);
                o.push(("fn", f));
            }
            TyKind::Adt(def, args) => {
                k(&mut o, "adt");
                o.push(("path", J::S(self.path(def.did()))));
                o.push((
                    "akind",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("packed", J::B(def.repr().packed())));
                o.push(("box", J::B(def.is_box())));
                o.push(("krate", J::s(tcx.crate_name(def.did().krate))));
                let targs = args.types().map(|t| J::u(self.ty(t))).collect();
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                        let fi = self.ty(ft);
                        fs.push(J::A(vec![J::s(f.name), J::u(fi)]));
                    }
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val
                    } else {
                        0
                    };
                    vs.push(J::O(vec![
                        ("name", J::s(v.name)),
                        ("discr", J::U(discr)),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            _ => k(&mut o, "other"),
        }
        o.push(("needs_drop", J::B(t.needs_drop(tcx, self.env))));
        o.push(("zst", J::B(tcx.layout_of(self.env.as_query_input(t)).map_or(false, |l| l.is_zst()))));
        J::O(o)
    }

    /// Whether to export (and let the analysis follow) this instance's body.
    fn follow(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let krate = tcx.crate_name(d.krate);
                if FOLLOW_CRATES.contains(&krate.as_str()) {
                    return true;
                }
                let p = self.path(d);
                let q = p.replace("core::", "std::").replace("alloc::", "std::");
                if krate.as_str() == "xml" {
                    return q.contains("xml::name::")
                        || q.contains("xml::attribute::")
                        || q.contains("writer::events::XmlEvent")
                        || q.contains("ParserConfig")
                        || q.contains("EmitterConfig");
                }
                if q.contains("std::fmt") || q.contains("fmt::") {
                    return false;
                }
                if q.starts_with('<') {
                    // `<X as Trait>::m`: both sides have to be in followed modules.
                    let (me, tr) = match q.split_once(" as ") {
                        Some((a, b)) => (&a[1..], b),
                        None => (&q[1..], "std::ops"),
                    };
                    let ok = |s: &str| {
                        let s = s.trim_start_matches(|c| c == '&' || c == ' ').trim_start_matches("mut ");
                        FOLLOW.iter().any(|f| s.starts_with(f)) || !s.contains("::")
                    };
                    return ok(me) && ok(tr);
                }
                FOLLOW.iter().any(|f| q.starts_with(f))
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => match t.kind() {
                TyKind::Adt(def, _) => {
                    let krate = tcx.crate_name(def.did().krate);
                    def.did().is_local()
                        || FOLLOW_CRATES.contains(&krate.as_str())
                        || self.path(def.did()).ends_with("option::Option")
                        || self.path(def.did()).ends_with("result::Result")
                }
                TyKind::Closure(..) | TyKind::Tuple(..) => true,
                _ => false,
            },
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Clone(..)) => true,
            InstanceKind::Shim(ShimKind::Reify(..)) => true,
            _ => false,
        }
    }

    /// Plainer functions in place of the library's specialised ones: the
    /// default methods of the iterator traits, and the fixture's `sxm_*`.
    fn redirect(&self, inst: Instance<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let InstanceKind::Item(d) = inst.def else { return None };
        if d.is_local() || FOLLOW_CRATES.contains(&tcx.crate_name(d.krate).as_str()) {
            return None;
        }
        let im = tcx.impl_of_assoc(d)?;
        let item = tcx.opt_item_name(d)?;
        let tr = tcx.impl_opt_trait_ref(im);
        let self_ty = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
        let head = match self_ty.kind() {
            TyKind::Adt(a, _) => tcx.item_name(a.did()).to_string(),
            TyKind::Slice(_) => "slice".to_string(),
            TyKind::Str => "str".to_string(),
            TyKind::Tuple(l) if l.is_empty() => "unit".to_string(),
            _ => return None,
        };
        let mut name = format!("sxm_{}_", head);
        if let Some(tr) = tr {
            let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
            let trait_name = tcx.item_name(tr.def_id);
            name += trait_name.as_str();
            name += "_";
            // `GenericShunt::next` is implemented by its `try_fold`.
            if head != "GenericShunt"
                && matches!(trait_name.as_str(), "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator")
                && !matches!(item.as_str(), "next" | "next_back" | "size_hint" | "len" | "nth" | "__iterator_get_unchecked")
            {
                let ti = tcx.associated_item(d).trait_item_def_id()?;
                if tcx.is_mir_available(ti) && tcx.defaultness(ti).has_value() {
                    let args = inst.args.rebase_onto(tcx, im, tr.args);
                    return Some(Instance::new_raw(ti, args));
                }
            }
        }
        name += item.as_str();
        let m = *self.models.get(name.as_str())?;
        let tys: Vec<Ty<'tcx>> = inst
            .args
            .types()
            .filter(|t| !matches!(t.kind(), TyKind::Adt(a, _) if tcx.item_name(a.did()).as_str() == "Global"))
            .collect();
        let n = tcx.generics_of(m).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
        if n != tys.len() {
            return None;
        }
        let mut it = tys.into_iter();
        let args = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => it.next().unwrap().into(),
            _ => unreachable!(),
        });
        // The bounds of the model may be narrower than the function's.
        if tcx.instantiate_and_check_impossible_clauses((m, args)) {
            return None;
        }
        match Instance::try_resolve(tcx, self.env, m, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }

    /// A reference to an instance: `{id | leaf...}`.
    pub fn inst(&mut self, inst: Instance<'tcx>) -> J {
        let inst = self.redirect(inst).unwrap_or(inst);
        let i = match self.fns.get(&inst) {
            Some(&i) => i,
            None => {
                let i = self.fns.len();
                self.fns.insert(inst, i);
                self.fn_queue.push(inst);
                i
            }
        };
        J::u(i)
    }

    fn fn_desc(&mut self, id: usize, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", J::u(id))];
        o.push(("path", J::S(self.path(d))));
        o.push(("name", J::S(ty::print::with_no_trimmed_paths!(inst.to_string()))));
        o.push(("krate", J::s(tcx.crate_name(d.krate))));
        o.push(("span", self.span(tcx.def_span(d))));
        o.push(("item", tcx.opt_item_name(d).map_or(J::N, |n| J::s(n))));
        let kind = match inst.def {
            InstanceKind::Item(_) if tcx.is_closure_like(d) => "closure",
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm_intrinsic",
            InstanceKind::Virtual(_, i) => {
                o.push(("slot", J::u(i)));
                "virtual"
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, t)) => {
                if let Some(t) = t {
                    let t = self.ty(t);
                    o.push(("drop_ty", J::u(t)));
                }
                "drop_glue"
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fn_ptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
            InstanceKind::Shim(_) => "shim",
        };
        o.push(("kind", J::s(kind)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl_trait", J::S(self.path(tr.skip_binder().def_id))));
            }
            let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
            // (The impl's parameters come first in the method's.)
            let st = tcx.erase_and_anonymize_regions(st);
            if let Ok(st) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st)) {
                let st = self.ty(st);
                o.push(("self_ty", J::u(st)));
            }
        }
        let targs: Vec<J> = inst.args.types().map(|t| J::u(self.ty(t))).collect();
        o.push(("args", J::A(targs)));
        o.push(("foreign", J::B(tcx.is_foreign_item(d))));
        if !matches!(inst.def, InstanceKind::Shim(_)) && !tcx.is_closure_like(d) {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let out = tcx.instantiate_bound_regions_with_erased(sig.output());
            if let Ok(t) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(out))) {
                let t = self.ty(t);
                o.push(("ret", J::u(t)));
            }
        }
        if self.follow(inst) {
            let body = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            let b = self.body(inst, &body);
            o.push(("body", b));
        }
        J::O(o)
    }

    fn body(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>) -> J {
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l) {
                    Some(n) => J::A(vec![J::u(t), J::s(n)]),
                    None => J::A(vec![J::u(t)]),
                }
            })
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|bb| {
                let mut ss = vec![];
                for s in &bb.statements {
                    if let Some(j) = self.stmt(inst, body, s) {
                        ss.push(j);
                    }
                }
                let t = self.term(inst, body, bb.terminator());
                J::O(vec![
                    ("s", J::A(ss)),
                    ("t", t),
                    ("cleanup", J::B(bb.is_cleanup)),
                ])
            })
            .collect();
        J::O(vec![
            ("nargs", J::u(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::N, |l| J::u(l.as_usize()))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::u(p.local.as_usize())];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::u(f.as_usize()), J::u(t), bt.variant_index.map_or(J::N, |v| J::u(v.as_usize()))])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::u(offset as usize),
                    J::u(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::u(from as usize), J::u(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::u(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![J::s("nop")]),
                _ => J::A(vec![J::s("nop")]),
            });
        }
        J::A(v)
    }

    fn place_ty(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> usize {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.ty(t)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                J::O(vec![("k", self.constant(c)), ("ty", J::u(t))])
            }
            Operand::RuntimeChecks(_) => J::O(vec![("k", J::O(vec![("i", J::u(0))])), ("ty", J::N)]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, ty, c.span),
            Err(_) => J::O(vec![("err", J::B(true))]),
        }
    }

    fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>, span: rustc_span::Span) -> J {
        if let ConstValue::ZeroSized = v {
            return J::O(vec![("z", J::B(true))]);
        }
        match mk_eval_cx_for_const_val(self.tcx.at(span), self.env, v, ty) {
            Some((cx, op)) => self.decode(&cx, &op, 0).unwrap_or_else(|| J::O(vec![("o", J::S(format!("{:?}", v)))])),
            None => J::O(vec![("o", J::S(format!("{:?}", v)))]),
        }
    }

    fn decode(
        &mut self,
        cx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &OpTy<'tcx>,
        depth: usize,
    ) -> Option<J> {
        if depth > 12 {
            return None;
        }
        let ty = op.layout.ty;
        match *ty.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Uint(_) => {
                let s = cx.read_scalar(op).discard_err()?;
                let bits = s.to_bits(op.layout.size).discard_err()?;
                Some(J::O(vec![("i", J::U(bits))]))
            }
            TyKind::Int(_) => {
                let s = cx.read_scalar(op).discard_err()?;
                let i = s.to_int(op.layout.size).discard_err()?;
                Some(J::O(vec![("i", J::I(i))]))
            }
            TyKind::Float(_) => {
                let s = cx.read_scalar(op).discard_err()?;
                let bits = s.to_bits(op.layout.size).discard_err()?;
                Some(J::O(vec![("fl", J::S(format!("{:x}", bits)))]))
            }
            TyKind::FnDef(..) => Some(J::O(vec![("z", J::B(true))])),
            TyKind::FnPtr(..) => {
                let p = cx.read_pointer(op).discard_err()?;
                let (alloc, _, _) = cx.ptr_get_alloc_id(p, 0).discard_err()?;
                match self.tcx.global_alloc(alloc) {
                    mir::interpret::GlobalAlloc::Function { instance, .. } => {
                        let f = self.inst(instance);
                        Some(J::O(vec![("fnptr", f)]))
                    }
                    _ => None,
                }
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let it = self.ty(inner);
                let imm = cx.read_immediate(op).discard_err()?;
                let place = match cx.deref_pointer(&imm).discard_err() {
                    Some(p) => p,
                    None => return Some(J::O(vec![("o", J::s("ptr"))])),
                };
                if inner.is_str() {
                    let s = cx.read_str(&place).discard_err()?;
                    return Some(J::O(vec![("str", J::s(s))]));
                }
                if matches!(inner.kind(), TyKind::Dynamic(..)) {
                    return Some(J::O(vec![("o", J::s("dyn"))]));
                }
                let mut hash_src = String::new();
                let o: OpTy<'tcx> = place.clone().into();
                let inner_j = self.decode(cx, &o, depth + 1);
                match inner_j {
                    Some(j) => {
                        j.write(&mut hash_src);
                        Some(J::O(vec![("ref", j), ("ity", J::u(it))]))
                    }
                    None => Some(J::O(vec![("o", J::S(format!("&{}", inner)))])),
                }
            }
            TyKind::Slice(_) | TyKind::Array(..) => {
                let n = op.len(cx).discard_err()?;
                if n > 4096 {
                    return None;
                }
                let mut v = vec![];
                if let TyKind::Slice(_) = ty.kind() {
                    let mp = op.as_mplace_or_imm();
                    let mp = mp.left()?;
                    let mut it = cx.project_array_fields(&mp).discard_err()?;
                    while let Some((_, f)) = it.next(cx).discard_err()? {
                        let f: OpTy<'tcx> = f.into();
                        v.push(self.decode(cx, &f, depth + 1)?);
                    }
                } else {
                    let mut it = cx.project_array_fields(op).discard_err()?;
                    while let Some((_, f)) = it.next(cx).discard_err()? {
                        v.push(self.decode(cx, &f, depth + 1)?);
                    }
                }
                Some(J::O(vec![("arr", J::A(v))]))
            }
            TyKind::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let f = cx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err()?;
                    v.push(self.decode(cx, &f, depth + 1)?);
                }
                Some(J::O(vec![("adt", J::N), ("fs", J::A(v))]))
            }
            TyKind::Adt(def, _) if def.is_union() => Some(J::O(vec![("o", J::s("union"))])),
            TyKind::Adt(def, _) => {
                let (vi, op2) = if def.is_enum() {
                    let vi = cx.read_discriminant(op).discard_err()?;
                    (vi, cx.project_downcast(op, vi).discard_err()?)
                } else {
                    (rustc_abi::VariantIdx::from_u32(0), op.clone())
                };
                let mut v = vec![];
                for i in 0..def.variant(vi).fields.len() {
                    let f = cx.project_field(&op2, rustc_abi::FieldIdx::from_usize(i)).discard_err()?;
                    v.push(self.decode(cx, &f, depth + 1)?);
                }
                Some(J::O(vec![("adt", J::u(vi.as_usize())), ("fs", J::A(v))]))
            }
            _ => None,
        }
    }

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> usize {
        let src = self.tcx.erase_and_anonymize_regions(src);
        let dst = self.tcx.erase_and_anonymize_regions(dst);
        if let Some(&i) = self.vtables.get(&(src, dst)) {
            return i;
        }
        let i = self.vtable_out.len();
        self.vtables.insert((src, dst), i);
        self.vtable_out.push(J::N);
        let mut ms = vec![];
        if let TyKind::Dynamic(preds, _) = dst.kind() {
            if let Some(p) = preds.principal() {
                let p = self.tcx.instantiate_bound_regions_with_erased(p);
                let tr = self.tcx.erase_and_anonymize_regions(p.with_self_ty(self.tcx, src));
                for e in self.tcx.vtable_entries(tr) {
                    ms.push(match e {
                        ty::VtblEntry::Method(inst) => self.inst(*inst),
                        _ => J::N,
                    });
                }
            }
        }
        let drop = Instance::resolve_drop_glue(self.tcx, src);
        let drop = self.inst(drop);
        let (s, d) = (self.ty(src), self.ty(dst));
        self.vtable_out[i] = J::O(vec![
            ("src", J::u(s)),
            ("dst", J::u(d)),
            ("drop", drop),
            ("slots", J::A(ms)),
        ]);
        i
    }

    fn stmt(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let rv = self.rvalue(inst, body, rv);
                let dt = self.place_ty(body, p);
                J::O(vec![("p", self.place(body, p)), ("r", rv), ("ty", J::u(dt)), ("sp", self.span(s.source_info.span))])
            }
            StatementKind::SetDiscriminant { place, variant_index } => J::O(vec![
                ("p", self.place(body, place)),
                ("sd", J::u(variant_index.as_usize())),
            ]),
            StatementKind::StorageDead(l) => J::O(vec![("dead", J::u(l.as_usize()))]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, _inst: Instance<'tcx>, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, _) => J::O(vec![("use", self.operand(body, o))]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::O(vec![("use", J::O(vec![("c", p)]))])
            }
            Rvalue::Repeat(o, n) => J::O(vec![
                ("repeat", self.operand(body, o)),
                ("n", n.try_to_target_usize(tcx).map_or(J::N, |n| J::u(n as usize))),
            ]),
            Rvalue::Ref(_, k, p) => {
                let pt = self.place_ty(body, p);
                J::O(vec![
                    ("ref", self.place(body, p)),
                    ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))),
                    ("pty", J::u(pt)),
                ])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(body, p);
                J::O(vec![("use", J::O(vec![("c", p)]))])
            }
            Rvalue::RawPtr(k, p) => {
                let pt = self.place_ty(body, p);
                // Fields of packed structs on the way are misaligned.
                let mut packed = false;
                for (base, e) in p.iter_projections() {
                    if let ProjectionElem::Deref = e {
                        packed = false;
                    }
                    if let TyKind::Adt(d, _) = base.ty(&body.local_decls, tcx).ty.kind() {
                        if d.repr().packed() {
                            packed = true;
                        }
                    }
                }
                J::O(vec![
                    ("ref", self.place(body, p)),
                    ("raw", J::B(true)),
                    ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                    ("pty", J::u(pt)),
                    ("packed", J::B(packed)),
                ])
            }
            Rvalue::ThreadLocalRef(_) => J::O(vec![("other", J::s("tls"))]),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let mut v = vec![
                    ("cast", J::S(format!("{:?}", k).split('(').next().unwrap().to_string())),
                    ("op", self.operand(body, o)),
                ];
                let from = self.ty(st);
                let to = self.ty(*t);
                v.push(("from", J::u(from)));
                v.push(("to", J::u(to)));
                if let CastKind::PointerCoercion(pc, _) = k {
                    v.push(("pc", J::S(format!("{:?}", pc).split('(').next().unwrap().to_string())));
                    if let ty::adjustment::PointerCoercion::Unsize = pc {
                        let pointee = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
                            match *t.kind() {
                                TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => Some(t),
                                TyKind::Adt(d, args) if d.is_box() => Some(args.type_at(0)),
                                TyKind::Adt(_, args) => args.types().next(),
                                _ => None,
                            }
                        };
                        if let (Some(s), Some(d)) = (pointee(st), pointee(*t)) {
                            let (s, d) = tcx.struct_lockstep_tails_for_codegen(s, d, self.env);
                            if matches!(d.kind(), TyKind::Dynamic(..)) && !matches!(s.kind(), TyKind::Dynamic(..)) {
                                let vt = self.vtable(s, d);
                                v.push(("vt", J::u(vt)));
                            }
                            if let TyKind::Array(_, n) = s.kind() {
                                v.push(("alen", n.try_to_target_usize(tcx).map_or(J::N, |n| J::u(n as usize))));
                            }
                        }
                    }
                    if let (ty::adjustment::PointerCoercion::ReifyFnPointer(_), TyKind::FnDef(d, a)) = (pc, st.kind()) {
                        let a = tcx.erase_and_anonymize_regions(*a).skip_binder();
                        if let Some(i) = Instance::resolve_for_fn_ptr(tcx, self.env, *d, a) {
                            let f = self.inst(i);
                            v.push(("fn", f));
                        }
                    }
                    if let (ty::adjustment::PointerCoercion::ClosureFnPointer(_), TyKind::Closure(d, a)) = (pc, st.kind()) {
                        let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                        let f = self.inst(i);
                        v.push(("fn", f));
                    }
                }
                J::O(v)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                J::O(vec![
                    ("bin", J::S(format!("{:?}", op))),
                    ("a", self.operand(body, &b.0)),
                    ("b", self.operand(body, &b.1)),
                    ("oty", J::u(t)),
                ])
            }
            Rvalue::UnaryOp(op, o) => J::O(vec![
                ("un", J::S(format!("{:?}", op))),
                ("a", self.operand(body, o)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(body, p);
                J::O(vec![("discr", self.place(body, p)), ("pty", J::u(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs = ops.iter().map(|o| self.operand(body, o)).collect();
                let mut v = vec![("agg", J::A(fs))];
                match **k {
                    AggregateKind::Array(_) => v.push(("k", J::s("array"))),
                    AggregateKind::Tuple => v.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(_, vi, _, _, active) => {
                        v.push(("k", J::s("adt")));
                        v.push(("v", J::u(vi.as_usize())));
                        if let Some(f) = active {
                            v.push(("active", J::u(f.as_usize())));
                        }
                    }
                    AggregateKind::Closure(..) => v.push(("k", J::s("closure"))),
                    AggregateKind::RawPtr(..) => v.push(("k", J::s("rawptr"))),
                    _ => v.push(("k", J::s("other"))),
                }
                J::O(v)
            }
            _ => J::O(vec![("other", J::S(format!("{:?}", rv)))]),
        }
    }

    fn call_ref(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>, span: rustc_span::Span) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let t = func.ty(&body.local_decls, tcx);
        match *t.kind() {
            TyKind::FnDef(d, args) => {
                let args = tcx.erase_and_anonymize_regions(args).skip_binder();
                let inst = Instance::expect_resolve(tcx, self.env, d, args, span);
                vec![("fn", self.inst(inst)), ("decl", J::S(self.path(d)))]
            }
            _ => vec![("fptr", self.operand(body, func))],
        }
    }

    fn term(&mut self, _inst: Instance<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let bb = |b: BasicBlock| J::u(b.as_usize());
        let mut v: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => v.push(("goto", bb(*target))),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                v.push(("goto", bb(*real_target)))
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let st = discr.ty(&body.local_decls, tcx);
                let signed = st.is_signed();
                let size = st.primitive_size(tcx);
                v.push(("switch", self.operand(body, discr)));
                v.push((
                    "targets",
                    J::A(targets
                        .iter()
                        .map(|(n, b)| {
                            let n = if signed { J::I(size.sign_extend(n)) } else { J::U(n) };
                            J::A(vec![n, bb(b)])
                        })
                        .collect()),
                ));
                v.push(("otherwise", bb(targets.otherwise())));
            }
            TerminatorKind::Return => v.push(("ret", J::B(true))),
            TerminatorKind::Unreachable => v.push(("unreachable", J::B(true))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => v.push(("unwind", J::B(true))),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(&body.local_decls, tcx).ty;
                v.push(("drop", self.place(body, place)));
                let ti = self.ty(pt);
                v.push(("ty", J::u(ti)));
                let g = Instance::resolve_drop_glue(tcx, tcx.erase_and_anonymize_regions(pt));
                if !matches!(g.def, InstanceKind::Shim(ShimKind::DropGlue(_, None))) {
                    v.push(("fn", self.inst(g)));
                }
                v.push(("target", bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let c = self.call_ref(body, func, *fn_span);
                v.push(("call", J::O(c)));
                v.push(("args", J::A(args.iter().map(|a| self.operand(body, &a.node)).collect())));
                let at = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); J::u(self.ty(t)) }).collect();
                v.push(("atys", J::A(at)));
                v.push(("dest", self.place(body, destination)));
                let dt = self.place_ty(body, destination);
                v.push(("dty", J::u(dt)));
                v.push(("target", target.map_or(J::N, bb)));
            }
            TerminatorKind::TailCall { .. } => v.push(("other", J::s("tailcall"))),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                v.push(("assert", self.operand(body, cond)));
                v.push(("expected", J::B(*expected)));
                v.push(("msg", J::S(format!("{:?}", msg).chars().take(80).collect::<String>())));
                v.push(("target", bb(*target)));
            }
            _ => v.push(("other", J::S(format!("{:?}", t.kind)))),
        }
        v.push(("sp", self.span(t.source_info.span)));
        J::O(v)
    }
}

pub fn export<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut ex = Ex {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        fns: HashMap::new(),
        fn_queue: vec![],
        types: HashMap::new(),
        type_out: vec![],
        vtables: HashMap::new(),
        vtable_out: vec![],
        models: HashMap::new(),
    };
    for d in tcx.hir_crate_items(()).free_items() {
        let d = d.owner_id.to_def_id();
        if let Some(n) = tcx.opt_item_name(d) {
            if n.as_str().starts_with("sxm_") {
                ex.models.insert(n.to_string(), d);
            }
        }
    }
    let mut roots = vec![];
    for d in tcx.hir_crate_items(()).free_items() {
        let d = d.owner_id.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) {
            continue;
        }
        let name = tcx.item_name(d);
        if !name.as_str().starts_with("root_") || tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        let inst = Instance::expect_resolve(tcx, ex.env, d, args, tcx.def_span(d));
        let i = ex.inst(inst);
        roots.push(J::A(vec![J::s(name), i]));
    }
    let mut fns: Vec<J> = vec![];
    let mut next = 0;
    while next < ex.fn_queue.len() {
        let inst = ex.fn_queue[next];
        let j = ex.fn_desc(next, inst);
        fns.push(j);
        next += 1;
    }
    let types = ex.type_out.into_iter().map(|t| t.unwrap()).collect();
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE))),
        ("roots", J::A(roots)),
        ("fns", J::A(fns)),
        ("types", J::A(types)),
        ("vtables", J::A(ex.vtable_out)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    s
}
