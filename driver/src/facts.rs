use crate::json::J;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: FxHashMap<Ty<'tcx>, usize>,
    adts: FxHashMap<DefId, J>,
    env: TypingEnv<'tcx>,
    body: Option<(DefId, &'tcx Body<'tcx>)>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: Default::default(),
        adts: Default::default(),
        env: TypingEnv::fully_monomorphized(),
        body: None,
    };
    let mut bodies = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        let (kname, body) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_const_fn(did) && false {
                    continue;
                }
                ("fn", tcx.optimized_mir(did))
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => ("const", tcx.mir_for_ctfe(did)),
            DefKind::AnonConst => ("const", tcx.mir_for_ctfe(did)),
            DefKind::Ctor(..) => continue,
            _ => continue,
        };
        let kname = if kind == DefKind::Closure { "closure" } else { kname };
        bodies.push(cx.body(did, kname, body, None));
        let promoted = tcx.promoted_mir(did);
        for (i, p) in promoted.iter_enumerated() {
            bodies.push(cx.body(did, "promoted", p, Some(i.as_usize())));
        }
    }
    // impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                cx.env = TypingEnv::post_analysis(tcx, did);
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let self_ty = cx.ty_any(self_ty);
                let (tr, trargs) = if of_trait {
                    let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let r = cx.skipnorm_tr(r);
                    let a = r
                        .args
                        .iter()
                        .filter_map(|a| match a.kind() {
                            GenericArgKind::Type(t) => Some(J::u(cx.ty(t))),
                            _ => None,
                        })
                        .collect();
                    (J::S(cx.path(r.def_id)), J::A(a))
                } else {
                    (J::Null, J::A(vec![]))
                };
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(J::O(vec![
                        ("name", J::s(it.name().to_string())),
                        ("id", J::S(cx.id(it.def_id))),
                        ("of", match it.trait_item_def_id() {
                            Some(d) => J::S(cx.id(d)),
                            None => J::Null,
                        }),
                    ]));
                }
                let derived = tcx.is_builtin_derived(did);
                let sp = tcx.def_span(did);
                impls.push(J::O(vec![
                    ("path", J::S(cx.path(did))),
                    ("trait", tr),
                    ("trait_args", trargs),
                    ("self", J::u(self_ty)),
                    ("derived", J::B(derived)),
                    ("macro", J::B(sp.from_expansion())),
                    ("items", J::A(items)),
                    ("span", cx.span(sp)),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.env = TypingEnv::post_analysis(tcx, did);
                let def = tcx.adt_def(did);
                cx.adt(def);
            }
            _ => {}
        }
    }
    // functions with visibility
    let ev = tcx.effective_visibilities(());
    let mut public = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && ev.is_reachable(id) {
            public.push(J::S(cx.id(did)));
        }
    }
    let mut adts = vec![];
    loop {
        // describing fields can register further types
        let keys: Vec<DefId> = cx.adts.keys().copied().collect();
        if keys.len() == adts.len() {
            break;
        }
        adts = keys.into_iter().map(|_| J::Null).collect();
    }
    let mut adts: Vec<(String, J)> = cx.adts.drain().map(|(d, j)| (tcx.def_path_hash(d).0.to_hex(), j)).collect();
    adts.sort_by(|a, b| a.0.cmp(&b.0));
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("adts", J::A(adts.into_iter().map(|x| x.1).collect())),
        ("impls", J::A(impls)),
        ("public", J::A(public)),
        ("bodies", J::A(bodies)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        self.tcx.def_path_hash(d).0.to_hex()
    }

    fn skipnorm_tr(&self, r: ty::TraitRef<'tcx>) -> ty::TraitRef<'tcx> {
        r
    }
    fn ty_any(&mut self, t: Ty<'tcx>) -> usize {
        self.ty(t)
    }

    /// Normalized path without generic arguments
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if d.is_crate_root() {
            return tcx.crate_name(d.krate).to_string();
        }
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = self.tyhead(st);
                if of_trait {
                    let tr = self.path(tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().def_id);
                    format!("<{st} as {tr}>")
                } else {
                    st
                }
            }
            DefKind::Ctor(..) => self.path(tcx.parent(d)),
            _ => {
                let key = tcx.def_key(d);
                let parent = match key.parent {
                    Some(p) => DefId { krate: d.krate, index: p },
                    None => return tcx.crate_name(d.krate).to_string(),
                };
                let p = self.path(parent);
                let data = key.disambiguated_data;
                let name = match data.data.get_opt_name() {
                    Some(n) => n.to_string(),
                    None => format!("{{{:?}#{}}}", data.data, data.disambiguator).to_lowercase(),
                };
                format!("{p}::{name}")
            }
        }
    }

    fn tyhead(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyhead(*t)),
            TyKind::Slice(t) => format!("[{}]", self.tyhead(*t)),
            TyKind::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            _ => t.to_string(),
        }
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![J::S(f), J::u(loc.line)])
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, J::Null);
        let tcx = self.tcx;
        let local = did.is_local();
        let mut variants = vec![];
        let discrs: Vec<i128> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val as i128).collect()
        } else {
            vec![0]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let mut fields = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("name", J::s(f.name.to_string()))];
                if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty_any(t);
                    o.push(("ty", J::u(t)));
                    o.push(("pub", J::B(tcx.visibility(f.did).is_public())));
                }
                fields.push(J::O(o));
            }
            variants.push(J::O(vec![
                ("name", J::s(v.name.to_string())),
                ("discr", J::I(*discrs.get(i.as_usize()).unwrap_or(&0))),
                ("fields", J::A(fields)),
            ]));
        }
        let j = J::O(vec![
            ("path", J::S(self.path(did))),
            ("id", J::S(self.id(did))),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(local)),
            ("variants", J::A(variants)),
            ("span", if local { self.span(tcx.def_span(did)) } else { J::Null }),
        ]);
        self.adts.insert(did, j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![];
        let mut k = "prim";
        match t.kind() {
            TyKind::Adt(a, args) => {
                k = "adt";
                o.push(("path", J::S(self.path(a.did()))));
                let a2 = self.args(args);
                o.push(("args", a2));
                self.adt(*a);
            }
            TyKind::Ref(_, x, m) => {
                k = "ref";
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![J::u(x)])));
            }
            TyKind::RawPtr(x, m) => {
                k = "ptr";
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x);
                o.push(("args", J::A(vec![J::u(x)])));
            }
            TyKind::Tuple(ts) => {
                k = "tuple";
                let v = ts.iter().map(|x| J::u(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            TyKind::Slice(x) => {
                k = "slice";
                let x = self.ty(*x);
                o.push(("args", J::A(vec![J::u(x)])));
            }
            TyKind::Array(x, n) => {
                k = "array";
                let x = self.ty(*x);
                o.push(("args", J::A(vec![J::u(x)])));
                o.push(("len", J::s(n.to_string())));
            }
            TyKind::Param(p) => {
                k = "param";
                o.push(("path", J::s(p.name.to_string())));
            }
            TyKind::Closure(d, args) => {
                k = "closure";
                o.push(("id", J::S(self.id(*d))));
                o.push(("path", J::S(self.path(*d))));
                let c = args.as_closure();
                let v = c.upvar_tys().iter().map(|x| J::u(self.ty(x))).collect();
                o.push(("upvars", J::A(v)));
                let v = c
                    .parent_args()
                    .iter()
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(J::u(self.ty(t))),
                        _ => None,
                    })
                    .collect();
                o.push(("args", J::A(v)));
            }
            TyKind::FnDef(d, args) => {
                k = "fndef";
                o.push(("id", J::S(self.id(*d))));
                o.push(("path", J::S(self.path(*d))));
                let args = self.args(args.skip_binder());
                o.push(("args", args));
            }
            TyKind::Dynamic(p, ..) => {
                k = "dyn";
                let tr = match p.principal_def_id() {
                    Some(d) => self.path(d),
                    None => String::new(),
                };
                o.push(("path", J::S(tr)));
            }
            TyKind::Alias(..) => k = "alias",
            TyKind::FnPtr(..) => k = "fnptr",
            TyKind::Never => k = "never",
            _ => {}
        }
        let mut v = vec![("k", J::s(k)), ("s", J::s(t.to_string()))];
        v.append(&mut o);
        self.types[i] = J::O(v);
        i
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::A(
            args.iter()
                .filter_map(|a| match a.kind() {
                    GenericArgKind::Type(t) => Some(J::u(self.ty(t))),
                    GenericArgKind::Const(c) => Some(J::s(c.to_string())),
                    _ => None,
                })
                .collect(),
        )
    }

    fn body(&mut self, did: DefId, kind: &'static str, body: &'tcx Body<'tcx>, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        self.env = TypingEnv::post_analysis(tcx, did);
        self.body = Some((did, body));
        let mut names: FxHashMap<usize, String> = Default::default();
        let mut upvars: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 && kind == "closure" {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upvars.push(J::A(vec![J::u(f.as_usize()), J::s(v.name.to_string())]));
                            break;
                        }
                    }
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let mut o = vec![("ty", J::u(t))];
            if let Some(n) = names.get(&i.as_usize()) {
                o.push(("name", J::s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in bb.statements.iter() {
                if let Some(j) = self.stmt(s) {
                    stmts.push(j);
                }
            }
            let term = self.term(bb.terminator());
            blocks.push(J::O(vec![
                ("c", J::B(bb.is_cleanup)),
                ("s", J::A(stmts)),
                ("t", term),
            ]));
        }
        let gens: Vec<J> = {
            let mut v = vec![];
            if promoted.is_none() {
                let ids = ty::GenericArgs::identity_for_item(tcx, did);
                for a in ids.iter() {
                    if let GenericArgKind::Type(t) = a.kind() {
                        v.push(J::s(t.to_string()));
                    }
                }
            }
            v
        };
        let mut id = self.id(did);
        let mut path = self.path(did);
        if let Some(p) = promoted {
            id = format!("{id}#p{p}");
            path = format!("{path}#p{p}");
        }
        let parent = tcx.opt_parent(did).map(|p| self.id(p));
        let trait_item = match tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()) {
            Some(d) => J::S(self.path(d)),
            None => J::Null,
        };
        let mut fnsig = J::Null;
        if kind == "fn" && promoted.is_none() {
            fnsig = J::s(if tcx.visibility(did).is_public() { "pub" } else { "priv" });
        }
        let derived = tcx
            .opt_parent(did)
            .map(|p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_builtin_derived(p))
            .unwrap_or(false);
        J::O(vec![
            ("id", J::S(id)),
            ("path", J::S(path)),
            ("kind", J::s(kind)),
            ("vis", fnsig),
            ("derived", J::B(derived)),
            ("parent", parent.map(J::S).unwrap_or(J::Null)),
            ("trait_item", trait_item),
            ("generics", J::A(gens)),
            ("span", self.span(tcx.def_span(did))),
            ("argc", J::u(body.arg_count)),
            ("upvars", J::A(upvars)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let body = self.body.unwrap().1;
        let mut v = vec![J::u(p.local.as_usize())];
        for (base, e) in p.iter_projections() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(&body.local_decls, self.tcx);
                    let name = match bt.ty.kind() {
                        TyKind::Adt(a, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() || a.is_struct() || a.is_union() {
                                a.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![J::s("f"), J::u(f.as_usize()), J::S(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, vi) => J::A(vec![
                    J::s("v"),
                    J::u(vi.as_usize()),
                    J::s(name.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                _ => J::s("?"),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("c"), self.cst(&c.const_)]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![J::s("rt"), J::s(format!("{other:?}"))]),
        }
    }

    fn alloc_bytes(&self, v: &ConstValue, _t: Ty<'tcx>) -> Option<Vec<u8>> {
        v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec())
    }

    fn cst(&mut self, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", J::u(ti))];
        let mut generic = false;
        if let mir::Const::Unevaluated(u, _) = c {
            match u.promoted {
                Some(p) => o.push(("promoted", J::S(format!("{}#p{}", self.id(u.def), p.as_usize())))),
                None => {
                    o.push(("def", J::S(self.path(u.def))));
                    o.push(("defid", J::S(self.id(u.def))));
                    let a = self.args(u.args);
                    o.push(("dargs", a));
                }
            }
            use rustc_middle::ty::TypeVisitableExt;
            generic = u.args.has_non_region_param();
        }
        if let TyKind::FnDef(..) = t.kind() {
            return J::O(o);
        }
        if !generic {
            if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let size = i.size();
                        let signed = t.is_signed();
                        let val: i128 = if signed {
                            i.to_int(size)
                        } else {
                            i.to_uint(size) as i128
                        };
                        o.push(("v", J::I(val)));
                        if t.is_char() {
                            if let Some(ch) = char::from_u32(val as u32) {
                                o.push(("ch", J::s(ch.to_string())));
                            }
                        }
                        if t.is_floating_point() && size.bytes() == 8 {
                            o.push(("fl", J::s(format!("{:?}", f64::from_bits(val as u64)))));
                        }
                    }
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) => {
                        // reference to a static, or to constant data
                        let aid = ptr.provenance.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                                o.push(("static", J::S(self.path(d))));
                                o.push(("staticid", J::S(self.id(d))));
                            }
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(m)) => {
                                if let TyKind::Ref(_, inner, _) = t.kind() {
                                    if let TyKind::Array(e, _) = inner.kind() {
                                        if *e == tcx.types.u8 {
                                            let a = m.inner();
                                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                            o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                    v => {
                        if let TyKind::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                if let Some(b) = self.alloc_bytes(&v, t) {
                                    o.push(("str", J::S(String::from_utf8_lossy(&b).into_owned())));
                                }
                            } else if let TyKind::Slice(e) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    if let Some(b) = self.alloc_bytes(&v, t) {
                                        o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        } else {
            o.push(("generic", J::B(true)));
        }
        if o.len() == 1 {
            o.push(("dbg", J::s(format!("{c}"))));
        }
        J::O(o)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => {
                let o = self.op(o);
                J::A(vec![J::s("repeat"), o, J::s(n.to_string())])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let f = matches!(bk, BorrowKind::Fake(..));
                let p = self.place(p);
                J::A(vec![J::s(if f { "fakeref" } else { "ref" }), J::B(m), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                J::A(vec![J::s("rawptr"), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::s(format!("{k:?}")), o, J::u(t)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.op(&ab.0);
                let b = self.op(&ab.1);
                J::A(vec![J::s("bin"), J::s(format!("{op:?}")), a, b])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.op(a);
                J::A(vec![J::s("un"), J::s(format!("{op:?}")), a])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.unwrap().1.local_decls, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(p);
                J::A(vec![J::s("discr"), p, J::u(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let var = def.variant(*v);
                        let names = var.fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        J::A(vec![
                            J::s("adt"),
                            J::S(self.path(*d)),
                            J::u(v.as_usize()),
                            J::s(var.name.to_string()),
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::S(self.id(*d)), J::S(self.path(*d))]),
                    _ => J::A(vec![J::s("other")]),
                };
                let fs = fs.iter().map(|f| self.op(f)).collect();
                J::A(vec![J::s("agg"), kind, J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), p])])
            }
            other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
        }
    }

    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<J> {
        let line = self.line(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(b) => {
                let p = self.place(&b.0);
                let r = self.rvalue(&b.1);
                Some(J::A(vec![J::s("="), p, r, line]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place);
                Some(J::A(vec![J::s("setd"), p, J::u(variant_index.as_usize()), line]))
            }
            StatementKind::StorageDead(l) => Some(J::A(vec![J::s("dead"), J::u(l.as_usize())])),
            _ => None,
        }
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.source_callsite().lo());
        J::u(loc.line)
    }

    fn callee(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::FnDef(d, args) => {
                let args = &args.skip_binder();
                let mut o = vec![
                    ("path", J::S(self.path(*d))),
                    ("id", J::S(self.id(*d))),
                ];
                let a = self.args(args);
                o.push(("args", a));
                if let Some(tr) = tcx.trait_of_assoc(*d) {
                    o.push(("trait", J::S(self.path(tr))));
                }
                let args_e = tcx.erase_and_anonymize_regions(*args);
                match Instance::try_resolve(tcx, self.env, *d, args_e) {
                    Ok(Some(inst)) => {
                        let rd = inst.def_id();
                        o.push(("rpath", J::S(self.path(rd))));
                        o.push(("rid", J::S(self.id(rd))));
                        let a = self.args(inst.args);
                        o.push(("rargs", a));
                        let k = match inst.def {
                            ty::InstanceKind::Item(_) => "item",
                            ty::InstanceKind::Virtual(..) => "virtual",
                            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                            _ => "other",
                        };
                        o.push(("rk", J::s(k)));
                    }
                    _ => {}
                }
                if tcx.is_diverging_lang(*d) {
                    o.push(("div", J::B(true)));
                }
                J::O(o)
            }
            _ => J::Null,
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::u(b.as_usize()),
            _ => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>) -> J {
        let line = self.span_full(t.source_info.span);
        let body = self.body.unwrap().1;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::u(target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.op(discr);
                let v = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![J::I(v as i128), J::u(b.as_usize())]))
                    .collect();
                let t = discr.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![J::s("switch"), d, J::A(v), J::u(targets.otherwise().as_usize()), line, J::u(t)])
            }
            TerminatorKind::UnwindResume => J::A(vec![J::s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("abort")]),
            TerminatorKind::Return => J::A(vec![J::s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                let ty = self.ty(ty);
                let p = self.place(place);
                J::A(vec![J::s("drop"), p, J::u(ty), J::u(target.as_usize()), self.unwind(unwind), line])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let ft = func.ty(&body.local_decls, self.tcx);
                let callee = self.callee(ft);
                let f = self.op(func);
                let a = args.iter().map(|a| self.op(&a.node)).collect();
                let d = self.place(destination);
                let _ = fn_span;
                J::O(vec![
                    ("k", J::s("call")),
                    ("callee", callee),
                    ("f", f),
                    ("args", J::A(a)),
                    ("dest", d),
                    ("to", target.map(|b| J::u(b.as_usize())).unwrap_or(J::Null)),
                    ("uw", self.unwind(unwind)),
                    ("sp", line),
                    ("mac", J::B(t.source_info.span.from_expansion())),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.op(cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "divzero".to_string(),
                    AssertKind::RemainderByZero(_) => "remzero".to_string(),
                    o => format!("{:?}", std::mem::discriminant(o)),
                };
                let ops: Vec<J> = match &**msg {
                    AssertKind::BoundsCheck { len, index } => vec![self.op(len), self.op(index)],
                    AssertKind::Overflow(_, a, b) => vec![self.op(a), self.op(b)],
                    AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) | AssertKind::OverflowNeg(a) => {
                        vec![self.op(a)]
                    }
                    _ => vec![],
                };
                J::A(vec![
                    J::s("assert"),
                    c,
                    J::B(*expected),
                    J::S(m),
                    J::A(ops),
                    J::u(target.as_usize()),
                    self.unwind(unwind),
                    line,
                ])
            }
            other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
        }
    }

    fn span_full(&self, sp: Span) -> J {
        self.span(sp)
    }
}

trait Hx {
    fn to_hex(&self) -> String;
}
impl Hx for rustc_data_structures::fingerprint::Fingerprint {
    fn to_hex(&self) -> String {
        rustc_data_structures::fingerprint::Fingerprint::to_hex(self)
    }
}
trait DivX {
    fn is_diverging_lang(&self, d: DefId) -> bool;
}
impl<'tcx> DivX for TyCtxt<'tcx> {
    fn is_diverging_lang(&self, d: DefId) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        let _ = d.as_local();
        let sig = self.fn_sig(d).skip_binder();
        let out = sig.output();
        let _ = out.has_escaping_bound_vars();
        out.skip_binder().is_never()
    }
}
