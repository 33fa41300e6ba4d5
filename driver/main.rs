// mirfacts: a rustc_private driver. Injected with RUSTC_WORKSPACE_WRAPPER, it compiles the
// crate exactly as cargo asks and, after analysis, writes the type-checked program (MIR of every
// local body with resolved callees, types, constants, impls, ADTs) as JSON to $MIRFACTS_OUT.
// It decides nothing: the rules live in /verif/lib.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
struct Obj(Vec<String>);
impl Obj {
    fn new() -> Self {
        Obj(vec![])
    }
    fn raw(&mut self, k: &str, v: String) -> &mut Self {
        self.0.push(format!("{}:{}", esc(k), v));
        self
    }
    fn s(&mut self, k: &str, v: &str) -> &mut Self {
        let e = esc(v);
        self.raw(k, e)
    }
    fn n(&mut self, k: &str, v: impl std::fmt::Display) -> &mut Self {
        self.raw(k, v.to_string())
    }
    fn b(&mut self, k: &str, v: bool) -> &mut Self {
        self.raw(k, v.to_string())
    }
    fn done(&self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    // instance graph
    insts: Vec<String>,
    instmap: HashMap<(Instance<'tcx>, usize), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, ty::TypingEnv<'tcx>, usize)>,
    envs: HashMap<String, usize>,
    cur_env: usize,
    ext: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn env_id(&mut self, tenv: ty::TypingEnv<'tcx>) -> usize {
        let k = format!("{:?}", tenv.param_env);
        let n = self.envs.len() + 1;
        *self.envs.entry(k).or_insert(n)
    }

    // the index of this instance in the graph, if its body is one we read
    fn inst(&mut self, i: Instance<'tcx>, tenv: ty::TypingEnv<'tcx>) -> Option<usize> {
        let d = i.def_id();
        match i.def {
                        ty::InstanceKind::Item(_) => {
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
                if !matches!(
                    self.tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
                ) {
                    return None;
                }
            }
            ty::InstanceKind::Shim(ShimKind::FnPtr(..) | ShimKind::ClosureOnce { .. } | ShimKind::Reify(..)) => {}
            _ => return None,
        }
        if !d.is_local() {
            let p = self.path(d);
            let shim = matches!(i.def, ty::InstanceKind::Shim(..));
            if !shim && !self.ext.iter().any(|e| p.starts_with(e.as_str())) {
                return None;
            }
        }
        let env = if i.has_param() { self.env_id(tenv) } else { 0 };
        if let Some(&x) = self.instmap.get(&(i, env)) {
            return Some(x);
        }
        let x = self.insts.len();
        self.insts.push(String::new());
        self.instmap.insert((i, env), x);
        self.queue.push_back((x, i, tenv, env));
        Some(x)
    }

    fn drain(&mut self) {
        let tcx = self.tcx;
        while let Some((x, i, tenv, env)) = self.queue.pop_front() {
            let d = i.def_id();
            let mut o = Obj::new();
            o.n("id", x);
            o.s("path", &self.path(d));
            o.s("full", &self.path_args(d, i.args));
            o.b("local", d.is_local());
            o.n("env", env);
            o.s("kind", &format!("{:?}", i.def).split('(').take(2).collect::<Vec<_>>().join(":"));
            let ga: Vec<String> = i.args.iter().map(|g| self.garg(g)).collect();
            o.raw("args", arr(ga));
            o.s("sp", &self.span(tcx.def_span(d)));
            let is_item = matches!(i.def, ty::InstanceKind::Item(_));
            let b = if is_item && d.is_local() { tcx.optimized_mir(d) } else { tcx.instance_mir(i.def) };
            let old = self.cur_env;
            self.cur_env = env;
            let generic = ty::EarlyBinder::bind(tcx, b.clone());
            let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, tenv, generic) {
                Ok(b) => b,
                Err(_) => {
                    o.b("failed", true);
                    self.insts[x] = o.done();
                    self.cur_env = old;
                    continue;
                }
            };
            o.raw("body", self.body(&b, tenv));
            let mut pv = vec![];
            if is_item && d.is_local() {
                for pb in tcx.promoted_mir(d).iter() {
                    let g = ty::EarlyBinder::bind(tcx, pb.clone());
                    match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, tenv, g) {
                        Ok(pb) => pv.push(self.body(&pb, tenv)),
                        Err(_) => pv.push("null".to_string()),
                    }
                }
            }
            o.raw("promoted", arr(pv));
            self.cur_env = old;
            self.insts[x] = o.done();
        }
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn path_args(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, args))
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        // a span produced by a macro is reported where the macro was invoked
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let mut o = Obj::new();
        o.s("s", &with_no_trimmed_paths!(t.to_string()));
        match *t.kind() {
            ty::Bool => {
                o.s("k", "bool");
            }
            ty::Char => {
                o.s("k", "char");
            }
            ty::Int(i) => {
                o.s("k", "int").n("bits", i.bit_width().unwrap_or(64)).b("signed", true);
                o.b("ptr", i.bit_width().is_none());
            }
            ty::Uint(i) => {
                o.s("k", "int").n("bits", i.bit_width().unwrap_or(64)).b("signed", false);
                o.b("ptr", i.bit_width().is_none());
            }
            ty::Float(f) => {
                o.s("k", "float").n("bits", f.bit_width());
            }
            ty::Adt(def, args) => {
                o.s("k", "adt").s("path", &self.path(def.did()));
                let a: Vec<String> = args.iter().map(|g| self.garg(g)).collect();
                o.raw("args", arr(a));
            }
            ty::Str => {
                o.s("k", "str");
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                o.s("k", "array").n("e", e);
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => o.n("len", n),
                    None => o.s("lens", &format!("{n}")),
                };
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                o.s("k", "slice").n("e", e);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                o.s("k", "ptr").n("e", e).b("mut", m.is_mut());
            }
            ty::Ref(r, e, m) => {
                let e = self.ty(e);
                o.s("k", "ref").n("e", e).b("mut", m.is_mut());
                o.s("r", &format!("{r}"));
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let d: DefId = d.into();
                o.s("k", "fndef").s("path", &self.path(d)).s("full", &self.path_args(d, args));
            }
            ty::Closure(d, a) => {
                let d: DefId = d.into();
                o.s("k", "closure").s("path", &self.path(d));
                let ck = a.as_closure().kind_ty().to_opt_closure_kind();
                o.s("ck", &format!("{ck:?}"));
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                o.s("k", "tuple").raw("es", arr(v));
            }
            ty::Alias(..) => {
                o.s("k", "alias");
            }
            ty::Param(p) => {
                o.s("k", "param").s("name", p.name.as_str());
            }
            ty::Never => {
                o.s("k", "never");
            }
            ty::FnPtr(..) => {
                o.s("k", "fnptr");
            }
            ty::Dynamic(..) => {
                o.s("k", "dyn");
            }
            _ => {
                o.s("k", "other");
            }
        }
        self.types[idx] = o.done();
        idx
    }

    fn garg(&mut self, g: ty::GenericArg<'tcx>) -> String {
        match g.kind() {
            ty::GenericArgKind::Type(t) => {
                let i = self.ty(t);
                format!("{{\"t\":{i}}}")
            }
            ty::GenericArgKind::Lifetime(r) => format!("{{\"r\":{}}}", esc(&format!("{r}"))),
            ty::GenericArgKind::Const(c) => match c.try_to_target_usize(self.tcx) {
                Some(n) => format!("{{\"c\":{n}}}"),
                None => format!("{{\"cs\":{}}}", esc(&format!("{c}"))),
            },
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let base_ty = pt.ty;
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".into(),
                ProjectionElem::Field(f, t) => {
                    let name = match base_ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants()
                                .get(vi)
                                .and_then(|v| v.fields.get(f))
                                .map(|f| f.name.to_string())
                                .unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    let ti = self.ty(t);
                    format!("[\"field\",{},{},{}]", f.as_usize(), ti, esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cidx\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"downcast\",{},{}]",
                    v.as_usize(),
                    esc(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                _ => "[\"other\"]".into(),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("{{\"l\":{},\"p\":[{}],\"t\":{}}}", p.local.as_usize(), v.join(","), t)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let cty = c.const_.ty();
        let mut o = Obj::new();
        let ti = self.ty(cty);
        o.n("t", ti);
        if let ty::FnDef(d, args) = *cty.kind() {
            let args = args.skip_binder();
            let d: DefId = d.into();
            let f = self.fnref(d, args, tenv);
            o.raw("fn", f);
            return o.done();
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                o.s("path", &self.path(u.def));
                o.s("full", &self.path_args(u.def, u.args));
                if u.promoted.is_none() && tcx.trait_of_assoc(u.def).is_some() {
                    if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, tenv, u.def, u.args) {
                        if i.def_id() != u.def {
                            o.s("res", &self.path(i.def_id()));
                        }
                    }
                }
                if let Some(p) = u.promoted {
                    o.n("promoted", p.as_usize());
                }
            }
            mir::Const::Ty(_, c) => {
                o.s("tyconst", &format!("{c}"));
            }
            _ => {}
        }
        // do not ask for the value of a promoted: its body is dumped
        let is_promoted = matches!(c.const_, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_promoted {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, tenv) {
                let size = si.size();
                let bits = si.to_bits(size);
                if let ty::Int(_) = cty.kind() {
                    o.raw("v", esc(&si.to_int(size).to_string()));
                } else {
                    o.raw("v", esc(&bits.to_string()));
                }
            } else if let Ok(cv) = c.const_.eval(tcx, tenv, c.span) {
                match cv {
                    ConstValue::Slice { alloc_id, meta } => {
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                            tcx.global_alloc(alloc_id)
                        {
                            let a = a.inner();
                            let n = (meta as usize).min(a.len());
                            let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            o.raw(
                                "bytes",
                                arr(bytes.iter().map(|b| b.to_string()).collect()),
                            );
                        }
                    }
                    ConstValue::ZeroSized => {
                        o.b("zst", true);
                    }
                    _ => {
                        o.b("opaque", true);
                    }
                }
            }
        }
        o.s("s", &with_no_trimmed_paths!(format!("{}", c.const_)));
        o.done()
    }

    fn fnref(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        tenv: ty::TypingEnv<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        o.s("path", &self.path(d));
        o.s("full", &self.path_args(d, args));
        o.b("local", d.is_local());
        o.s("krate", tcx.crate_name(d.krate).as_str());
        let ga: Vec<String> = args.iter().map(|g| self.garg(g)).collect();
        o.raw("args", arr(ga));
        if !d.is_local() {
            let it = self.iterators(args, tenv);
            if !it.is_empty() {
                o.raw("iters", arr(it));
            }
        }
        if let Some(ai) = tcx.opt_associated_item(d) {
            o.s("name", ai.name().as_str());
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.s("trait", &self.path(tr));
                if args.len() > 0 {
                    if let Some(t) = args.types().next() {
                        let ti = self.ty(t);
                        o.n("self", ti);
                    }
                }
                // resolve through impls in the generic environment
                let can = true;
                if can {
                    if let Some(inst) = self.resolve(tenv, d, args) {
                        let rd = inst.def_id();
                        if let Some(x) = self.inst(inst, tenv) {
                            o.n("inst", x);
                        }
                        if rd != d || tcx.is_mir_available(rd) {
                            o.s("res", &self.path(rd));
                            o.b("res_local", rd.is_local());
                            o.s("res_kind", &format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string());
                            let ra: Vec<String> = inst.args.iter().map(|g| self.garg(g)).collect();
                            o.raw("res_args", arr(ra));
                        }
                    }
                }
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let ti = self.ty(st);
                o.n("impl_self", ti);
            }
            if tcx.trait_of_assoc(d).is_none() {
                if let Some(inst) = self.resolve(tenv, d, args) {
                    if let Some(x) = self.inst(inst, tenv) {
                        o.n("inst", x);
                    }
                }
            }
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.s("name", n.as_str());
            if matches!(tcx.def_kind(d), DefKind::Fn) {
                if let Some(inst) = self.resolve(tenv, d, args) {
                    if let Some(x) = self.inst(inst, tenv) {
                        o.n("inst", x);
                    }
                }
            }
        }
        o.s("dk", &format!("{:?}", tcx.def_kind(d)));
        o.done()
    }

    /// the iterators of the crate among the type arguments of a library function: their `next` is called from there
    fn iterators(&mut self, args: ty::GenericArgsRef<'tcx>, tenv: ty::TypingEnv<'tcx>) -> Vec<String> {
        let tcx = self.tcx;
        let mut out = vec![];
        let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return out };
        let Some(next) = tcx.associated_item_def_ids(tr).iter().copied().find(|x| tcx.opt_item_name(*x).is_some_and(|n| n.as_str() == "next"))
        else {
            return out;
        };
        for t in args.types() {
            for a in t.walk() {
                let Some(u) = a.as_type() else { continue };
                let ty::Adt(def, _) = u.kind() else { continue };
                if !def.did().is_local() || tcx.non_blanket_impls_for_ty(tr, u).next().is_none() {
                    continue;
                }
                if let Some(i) = self.resolve(tenv, next, tcx.mk_args(&[u.into()])) {
                    if i.def_id().is_local() {
                        let ti = self.ty(u);
                        if let Some(x) = self.inst(i, tenv) {
                            out.push(format!("[{ti},{x}]"));
                        }
                    }
                }
            }
        }
        out
    }

    /// resolution, also where a where-clause on a concrete type (`&'a [u8]: ToBer`) hides the implementation
    fn resolve(&self, tenv: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, tenv, d, args) {
            return Some(i);
        }
        let keep: Vec<ty::Clause<'tcx>> = tenv
            .param_env
            .caller_bounds()
            .filter(|c| match c.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => matches!(t.self_ty().kind(), ty::Param(_) | ty::Alias(..)),
                _ => true,
            })
            .collect();
        let env = ty::ParamEnv::new(self.tcx, keep);
        let mut t2 = tenv;
        t2.param_env = env;
        Instance::try_resolve(self.tcx, t2, d, args).ok().flatten()
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p, body)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(c, tenv)),
            other => format!("{{\"o\":{}}}", esc(&format!("{other:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, tenv)),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|n| n.to_string())
                    .unwrap_or_else(|| esc(&format!("{n}")));
                format!("[\"repeat\",{},{}]", self.operand(o, body, tenv), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = format!("{k:?}");
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, body, tenv), ti)
            }
            Rvalue::BinaryOp(b, bx) => {
                let (x, y) = &**bx;
                format!(
                    "[\"bin\",{},{},{}]",
                    esc(&format!("{b:?}")),
                    self.operand(x, body, tenv),
                    self.operand(y, body, tenv)
                )
            }
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(o, body, tenv))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, body, tenv)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let vd = &def.variants()[*vi];
                        let fs: Vec<String> =
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"adt\",\"path\":{},\"vi\":{},\"variant\":{},\"fields\":{},\"enum\":{}}}",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            esc(vd.name.as_str()),
                            arr(fs),
                            def.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, a);
                        let x = self.inst(inst, tenv).map(|x| x as i64).unwrap_or(-1);
                        format!("{{\"k\":\"closure\",\"path\":{},\"inst\":{}}}", esc(&self.path(*d)), x)
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p, body)),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, tenv: ty::TypingEnv<'tcx>) -> String {
        let mut o = Obj::new();
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|d| self.ty(d.ty).to_string())
            .collect();
        o.raw("locals", arr(locals));
        o.n("argc", body.arg_count);
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, body)));
            }
        }
        o.raw("names", arr(names));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("{\"s\":[],\"t\":{\"k\":\"resume\"},\"cleanup\":true}".to_string());
                continue;
            }
            let mut sts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        sts.push(format!(
                            "[{},{},{}]",
                            self.place(p, body),
                            self.rvalue(r, body, tenv),
                            esc(&self.span(st.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!(
                            "[{},[\"setdiscr\",{}],\"\"]",
                            self.place(place, body),
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let mut t = Obj::new();
            t.s("sp", &self.span(term.source_info.span));
            t.b("mac", term.source_info.span.from_expansion());
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    t.s("k", "goto").n("to", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.s("k", "switch").raw("on", self.operand(discr, body, tenv));
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize()))
                        .collect();
                    t.raw("cases", arr(v)).n("else", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => {
                    t.s("k", "return");
                }
                TerminatorKind::Unreachable => {
                    t.s("k", "unreachable");
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let ti = self.ty(place.ty(&body.local_decls, self.tcx).ty);
                    t.s("k", "drop").n("to", target.as_usize()).n("ty", ti);
                    t.raw("place", self.place(place, body));
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    t.s("k", "call").raw("f", self.operand(func, body, tenv));
                    let v: Vec<String> =
                        args.iter().map(|a| self.operand(&a.node, body, tenv)).collect();
                    t.raw("args", arr(v)).raw("dest", self.place(destination, body));
                    t.s("src", &format!("{call_source:?}"));
                    if let Some(b) = target {
                        t.n("to", b.as_usize());
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    t.s("k", "assert").raw("cond", self.operand(cond, body, tenv));
                    t.b("expected", *expected).n("to", target.as_usize());
                    let (kind, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    t.s("msg", &kind);
                    let v: Vec<String> =
                        ops.iter().map(|a| self.operand(a, body, tenv)).collect();
                    t.raw("ops", arr(v));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    t.s("k", "goto").n("to", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    t.s("k", "goto").n("to", real_target.as_usize());
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    t.s("k", "resume");
                }
                other => {
                    t.s("k", "other").s("dbg", &format!("{other:?}"));
                }
            }
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"cleanup\":{}}}",
                arr(sts),
                t.done(),
                bb.is_cleanup
            ));
        }
        o.raw("blocks", arr(blocks));
        o.done()
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let out = match std::env::var("MIRFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
        if !want.split(',').any(|w| w == krate) {
            return Compilation::Continue;
        }
        let ext = std::env::var("MIRFACTS_EXT").unwrap_or_default();
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            insts: vec![],
            instmap: HashMap::new(),
            queue: VecDeque::new(),
            envs: HashMap::new(),
            cur_env: 0,
            ext: ext.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
        };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let kname = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assoc",
                DefKind::Closure => "closure",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => continue,
                _ => "other",
            };
            let mut o = Obj::new();
            o.s("path", &cx.path(d));
            o.s("kind", kname);
            o.s("sp", &cx.span(tcx.def_span(d)));
            o.b("mac", tcx.def_span(d).from_expansion());
            let tenv = ty::TypingEnv::post_analysis(tcx, d);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.b("pub", ev.is_reachable(ld));
                o.b("exported", ev.is_exported(ld));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.s("sig", &with_no_trimmed_paths!(format!("{sig}")));
                o.b("const", tcx.is_const_fn(d));
                o.b("unsafe", sig.safety().is_unsafe());
                o.s("name", tcx.item_name(d).as_str());
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(st);
                    o.n("impl_self", ti);
                    o.s("impl", &cx.path(im));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.s("trait", &cx.path(tr.def_id));
                        o.s("trait_ref", &with_no_trimmed_paths!(format!("{tr}")));
                    }
                    o.b("derived", tcx.is_builtin_derived(im));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.s("in_trait", &cx.path(tr));
                }
            }
            if kind == DefKind::Closure {
                let p = tcx.typeck_root_def_id(d);
                o.s("root", &cx.path(p));
                o.s("parent", &cx.path(tcx.parent(d)));
            }
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if isfn {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                if kind != DefKind::Closure {
                    let i = Instance::new_raw(d, args);
                    if let Some(x) = cx.inst(i, tenv) {
                        o.n("inst", x);
                    }
                }
            } else {
                let old = cx.cur_env;
                cx.cur_env = cx.env_id(tenv);
                o.raw("body", cx.body(tcx.mir_for_ctfe(d), tenv));
                let pm = tcx.promoted_mir(d);
                let pv: Vec<String> = pm.iter().map(|b| cx.body(b, tenv)).collect();
                o.raw("promoted", arr(pv));
                cx.cur_env = old;
            }
            fns.push(o.done());
        }
        // impls and traits
        let mut impls = vec![];
        let mut traits = vec![];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let mut o = Obj::new();
                    o.s("path", &cx.path(d)).s("sp", &cx.span(tcx.def_span(d)));
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(st);
                    o.n("self", ti);
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.s("trait", &cx.path(tr.def_id));
                        o.s("trait_ref", &with_no_trimmed_paths!(format!("{tr}")));
                        o.b("trait_local", tr.def_id.is_local());
                    }
                    o.b("derived", tcx.is_builtin_derived(d));
                    let mut items = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        let mut a = Obj::new();
                        a.s("name", &ai.opt_name().map(|n| n.to_string()).unwrap_or_default());
                        a.s("path", &cx.path(ai.def_id));
                        match ai.kind {
                            ty::AssocKind::Fn { .. } => {
                                a.s("k", "fn");
                            }
                            ty::AssocKind::Type { .. } => {
                                a.s("k", "type");
                                let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                                let ti = cx.ty(t);
                                a.n("t", ti);
                            }
                            ty::AssocKind::Const { .. } => {
                                a.s("k", "const");
                                let tenv = ty::TypingEnv::post_analysis(tcx, d);
                                let args = ty::GenericArgs::identity_for_item(tcx, ai.def_id);
                                let has_params = tcx.generics_of(d).count() > 0
                                    && args.types().next().is_some();
                                let _ = has_params;
                                let u = mir::UnevaluatedConst { def: ai.def_id, args, promoted: None };
                                let cty = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                                let c = mir::Const::Unevaluated(u, cty);
                                let ti = cx.ty(cty);
                                a.n("t", ti);
                                if let Some(si) = c.try_eval_scalar_int(tcx, tenv) {
                                    a.s("v", &si.to_bits(si.size()).to_string());
                                }
                            }
                        }
                        items.push(a.done());
                    }
                    o.raw("items", arr(items));
                    impls.push(o.done());
                }
                DefKind::Trait { .. } => {
                    let mut o = Obj::new();
                    o.s("path", &cx.path(d)).s("sp", &cx.span(tcx.def_span(d)));
                    let mut items = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        let mut a = Obj::new();
                        a.s("name", &ai.opt_name().map(|n| n.to_string()).unwrap_or_default());
                        a.b("default", ai.defaultness(tcx).has_value());
                        items.push(a.done());
                    }
                    o.raw("items", arr(items));
                    traits.push(o.done());
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut o = Obj::new();
                    o.s("path", &cx.path(d)).s("sp", &cx.span(tcx.def_span(d)));
                    o.b("enum", def.is_enum());
                    o.b("pub", ev.is_reachable(id));
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut a = Obj::new();
                        a.s("name", v.name.as_str());
                        if def.is_enum() {
                            a.s("discr", &def.discriminant_for_variant(tcx, vi).val.to_string());
                        }
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let ti = cx.ty(t);
                                format!(
                                    "{{\"name\":{},\"t\":{},\"pub\":{}}}",
                                    esc(f.name.as_str()),
                                    ti,
                                    f.vis.is_public()
                                )
                            })
                            .collect();
                        a.raw("fields", arr(fs));
                        vs.push(a.done());
                    }
                    o.raw("variants", arr(vs));
                    adts.push(o.done());
                }
                _ => {}
            }
        }
        // every (local trait method, implementing type) pair, resolved
        let mut roots = vec![];
        let mut selfs: Vec<(Ty<'tcx>, DefId)> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut ltraits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = tcx.erase_and_anonymize_regions(st);
                    let k = format!("{:?} {:?}", st, ty::TypingEnv::post_analysis(tcx, d).param_env);
                    if seen.insert(k) {
                        selfs.push((st, d));
                    }
                }
                DefKind::Trait { .. } => ltraits.push(d),
                _ => {}
            }
        }
        // traits of other crates named by MIRFACTS_TRAITS also count
        let wt = std::env::var("MIRFACTS_TRAITS").unwrap_or_default();
        let wt: Vec<&str> = wt.split(',').filter(|x| !x.is_empty()).collect();
        for tr in tcx.all_traits_including_private() {
            if !tr.is_local() {
                let p = with_no_trimmed_paths!(tcx.def_path_str(tr));
                if wt.iter().any(|w| *w == p) {
                    ltraits.push(tr);
                }
            }
        }
        use rustc_trait_selection::infer::InferCtxtExt as _;
        use rustc_infer::infer::TyCtxtInferExt as _;
        for &(st, env_of) in &selfs {
            let tenv = ty::TypingEnv::post_analysis(tcx, env_of);
            for &tr in &ltraits {
                let g = tcx.generics_of(tr);
                // remaining trait parameters: lifetimes erased, types at their defaults
                let mut args: Vec<ty::GenericArg<'tcx>> = vec![st.into()];
                let mut ok = true;
                for p in g.own_params.iter().skip(1) {
                    match p.kind {
                        ty::GenericParamDefKind::Lifetime => args.push(tcx.lifetimes.re_erased.into()),
                        ty::GenericParamDefKind::Type { has_default: true, .. } => {
                            let t = tcx.type_of(p.def_id).instantiate(tcx, &args[..]).skip_norm_wip();
                            args.push(tcx.erase_and_anonymize_regions(t).into());
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if !ok {
                    continue;
                }
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(tenv);
                let r = infcx.type_implements_trait(tr, args.clone(), penv);
                if !r.must_apply_modulo_regions() {
                    continue;
                }
                for ai in tcx.associated_items(tr).in_definition_order() {
                    if !matches!(ai.kind, ty::AssocKind::Fn { .. }) {
                        continue;
                    }
                    let mg = tcx.generics_of(ai.def_id);
                    // writer parameters are filled in with Vec<u8>; methods with other parameters are left out
                    let writers = tcx.explicit_clauses_of(ai.def_id).clauses.iter().filter(|(p, _)| {
                        p.as_trait_clause().map_or(false, |c| {
                            with_no_trimmed_paths!(tcx.def_path_str(c.def_id())) == "std::io::Write"
                        })
                    }).count();
                    let tparams = mg.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
                    if tparams > 1 || tparams != writers {
                        continue;
                    }
                    let mut ma = args.clone();
                    let mut ok = true;
                    for p in mg.own_params.iter() {
                        match p.kind {
                            ty::GenericParamDefKind::Lifetime => ma.push(tcx.lifetimes.re_erased.into()),
                            _ => match tcx.get_diagnostic_item(rustc_span::sym::Vec) {
                                Some(v) => {
                                    let vt = tcx.type_of(v).skip_binder();
                                    let al = match vt.kind() {
                                        ty::Adt(def, _) => {
                                            let g = tcx.generics_of(def.did());
                                            let ap = g.own_params.iter().find(|p| p.name.as_str() == "A").map(|p| p.def_id);
                                            let mut a: Vec<ty::GenericArg<'tcx>> = vec![tcx.types.u8.into()];
                                            if let Some(ap) = ap {
                                                a.push(tcx.type_of(ap).instantiate(tcx, &a[..]).skip_norm_wip().into());
                                            }
                                            Ty::new_adt(tcx, *def, tcx.mk_args(&a))
                                        }
                                        _ => vt,
                                    };
                                    ma.push(al.into());
                                }
                                None => ok = false,
                            },
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let ma = tcx.mk_args(&ma);
                    let Ok(Some(i)) = Instance::try_resolve(tcx, tenv, ai.def_id, ma) else { continue };
                    let x = match cx.inst(i, tenv) {
                        Some(x) => x as i64,
                        None => -1,
                    };
                    let mut o = Obj::new();
                    let ti = cx.ty(st);
                    o.n("self", ti).s("trait", &cx.path(tr));
                    o.s("method", ai.name().as_str());
                    o.n("inst", x).s("res", &cx.path(i.def_id()));
                    o.s("env", &cx.path(env_of));
                    roots.push(o.done());
                }
            }
        }
        cx.drain();
        let mut top = Obj::new();
        top.s("crate", &krate);
        top.raw("roots", arr(roots));
        let insts = std::mem::take(&mut cx.insts);
        top.raw("insts", arr(insts));
        top.raw("fns", arr(fns));
        top.raw("impls", arr(impls));
        top.raw("traits", arr(traits));
        top.raw("adts", arr(adts));
        let types = std::mem::take(&mut cx.types);
        top.raw("types", arr(types));
        let file = format!("{}/{}.json", out, krate);
        // a crate may be compiled more than once (e.g. lib and tests): keep the lib
        let is_test = tcx.sess.opts.test;
        if !is_test {
            std::fs::write(&file, top.done()).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") {
        args.remove(0);
    }
    // read the program as written, before any MIR optimisation, with the panicking form of
    // arithmetic: that is the reading the rules are about
    for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=on"] {
        args.push(a.to_string());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
