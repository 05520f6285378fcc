use crate::json::{ws, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

fn a(v: Vec<J>) -> J { J::A(v) }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<(Ty<'tcx>, u32), usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashSet<String>,
    bodies: Vec<(String, String)>,
    envs: Vec<(DefId, TypingEnv<'tcx>)>,
    consts_seen: HashSet<String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

const DESCEND: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::bool::",
    "core::clone::", "core::default::", "core::tuple::", "core::iter::", "core::ops::control_flow::",
    "core::slice::<impl", "core::num::<impl", "core::array::", "core::slice::iter::", "core::str::<impl", "alloc::vec::<impl",
    "<T as core::convert", "<I as core::iter", "core::ops::function::",
    "<core::", "<u", "<i", "<bool", "<f32", "<f64", "<(", "<&", "<alloc::vec::Vec", "alloc::vec::Vec::", "alloc::slice::", "core::mem::",
    "num_traits::", "<num_traits::", "num_enum::", "<num_enum::",
];

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx {
        tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_seen: HashSet::new(),
        queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![], envs: vec![], consts_seen: HashSet::new(),
        files: HashMap::new(), file_list: vec![],
    };
    let mut roots = vec![];
    let mut fns = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn => {}
            DefKind::Ctor(..) => { continue; }
            _ => continue,
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        cx.envs.push((did, env));
        let e = cx.envs.len() - 1;
        let inst = Instance::new_raw(did, args);
        let key = cx.key(inst, e);
        roots.push(s(key.clone()));
        let vis = tcx.visibility(did).is_public();
        let ev = tcx.effective_visibilities(()).is_reachable(*ldid);
        let (file, line) = cx.loc(tcx.def_span(did));
        let parent = tcx.parent(did);
        let (imp_tr, imp_self) = if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let st = tcx.type_of(parent).instantiate_identity();
            let st = cx.tystr_skip(st);
            let tr = tcx.impl_opt_trait_ref(parent).map(|t| cx.path(t.skip_binder().def_id));
            (tr, Some(st))
        } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
            (Some(cx.path(parent)), None)
        } else { (None, None) };
        fns.push(J::O(vec![
            ("path", s(cx.path(did))), ("key", s(key)), ("pub", J::B(vis)), ("reach", J::B(ev)), ("file", i(file)), ("line", i(line)),
            ("name", s(tcx.item_name(did).to_string())),
            ("trait", imp_tr.map(s).unwrap_or(J::Null)), ("self", imp_self.map(s).unwrap_or(J::Null)),
        ]));
        cx.enqueue(inst, e);
    }
    // all local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(did),
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).own_requires_monomorphization() { continue; }
                cx.const_body(did);
            }
            _ => {}
        }
    }
    while let Some((inst, e)) = cx.queue.pop_front() { cx.body(inst, e); }
    let mut o = String::new();
    o.push_str("{\"crate\":"); ws(&tcx.crate_name(LOCAL_CRATE).to_string(), &mut o);
    o.push_str(",\"roots\":"); a(roots).w(&mut o);
    o.push_str(",\"fns\":"); a(fns).w(&mut o);
    o.push_str(",\"types\":["); o.push_str(&cx.types.join(",\n")); o.push(']');
    o.push_str(",\"files\":"); a(cx.file_list.iter().map(|x| s(x.clone())).collect()).w(&mut o);
    o.push_str(",\"adts\":{");
    let mut first = true;
    for (k, v) in &cx.adts { if !first { o.push_str(",\n") } first = false; ws(k, &mut o); o.push(':'); o.push_str(v); }
    o.push_str("},\"bodies\":{");
    let mut first = true;
    for (k, v) in &cx.bodies { if !first { o.push_str(",\n") } first = false; ws(k, &mut o); o.push(':'); o.push_str(v); }
    o.push_str("}}");
    o
}

impl<'tcx> Cx<'tcx> {
    fn loc(&mut self, sp: Span) -> (usize, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let n = self.files.len();
        let idx = *self.files.entry(f.clone()).or_insert(n);
        if idx == n { self.file_list.push(f); }
        (idx, lo.line)
    }

    fn path(&self, did: DefId) -> String {
        let tcx = self.tcx;
        if did.is_crate_root() { return tcx.crate_name(did.krate).to_string(); }
        let parent = tcx.parent(did);
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity();
                let stn = self.tystr_skip(st);
                match tcx.impl_opt_trait_ref(did) {
                    Some(tr) => {
                        let tr = tr.skip_binder();
                        let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.tystr(t)).collect();
                        let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(",")) };
                        return format!("<{} as {}{}>", stn, self.path(tr.def_id), ta);
                    }
                    None => {
                        if let TyKind::Adt(ad, _) = tcx.type_of(did).instantiate_identity().skip_normalization().kind() { return self.path(ad.did()); }
                        return format!("{}::<impl {}>", self.path(self.module_of(did)), stn);
                    }
                }
            }
            DefKind::Closure => {
                let d = tcx.def_key(did).disambiguated_data.disambiguator;
                return format!("{}::{{closure#{}}}", self.path(parent), d);
            }
            DefKind::Ctor(..) => return format!("{}::{{ctor}}", self.path(parent)),
            _ => {}
        }
        let key = tcx.def_key(did);
        let name = match key.disambiguated_data.data.get_opt_name() {
            Some(n) => n.to_string(),
            None => format!("{{{:?}#{}}}", kind, key.disambiguated_data.disambiguator),
        };
        format!("{}::{}", self.path(parent), name)
    }
    fn module_of(&self, mut d: DefId) -> DefId {
        loop { d = self.tcx.parent(d); if matches!(self.tcx.def_kind(d), DefKind::Mod) || d.is_crate_root() { return d; } }
    }
    fn tystr_skip(&self, t: ty::Unnormalized<'tcx, Ty<'tcx>>) -> String { self.tystr(t.skip_normalization()) }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(d, args) => {
                let p = self.path(d.did());
                let ta: Vec<String> = args.iter().filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(self.tystr(t)),
                    ty::GenericArgKind::Const(c) => Some(format!("{}", c)),
                    _ => None }).collect();
                if ta.is_empty() { p } else { format!("{}<{}>", p, ta.join(",")) }
            }
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tystr(*t)),
            TyKind::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.tystr(*t)),
            TyKind::Slice(t) => format!("[{}]", self.tystr(*t)),
            TyKind::Array(t, n) => format!("[{};{}]", self.tystr(*t), n),
            TyKind::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tystr(t)).collect::<Vec<_>>().join(",")),
            TyKind::Closure(d, args) => {
                let pa: Vec<String> = args.as_closure().parent_args().iter().filter_map(|g| g.as_type()).map(|t| self.tystr(t)).collect();
                if pa.is_empty() { format!("{{closure {}}}", self.path(*d)) } else { format!("{{closure {}<{}>}}", self.path(*d), pa.join(",")) }
            }
            TyKind::FnDef(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(*args).skip_binder();
                let pa: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|t| self.tystr(t)).collect();
                if pa.is_empty() { format!("{{fn {}}}", self.path(*d)) } else { format!("{{fn {}<{}>}}", self.path(*d), pa.join(",")) }
            }
            TyKind::Dynamic(preds, _) => format!("dyn {}", preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default()),
            _ => format!("{}", t),
        }
    }

    fn args_str(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(self.tystr(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{}", c)),
            _ => None }).collect();
        v.join(",")
    }

    fn key(&self, inst: Instance<'tcx>, env: usize) -> String {
        let did = inst.def_id();
        let mut k = match inst.def {
            InstanceKind::Item(_) => String::new(),
            ref x => { let d = format!("{:?}", x); let d = d.split('(').next().unwrap().to_string(); format!("[{}]", d) }
        };
        k.push_str(&self.path(did));
        let astr = match self.tcx.def_kind(did) {
            DefKind::Closure => {
                let v: Vec<String> = inst.args.as_closure().parent_args().iter().filter_map(|g| g.as_type()).map(|t| self.tystr(t)).collect();
                v.join(",")
            }
            _ => self.args_str(inst.args),
        };
        if !astr.is_empty() { k.push_str(&format!("<{}>", astr)); }
        if inst.args.has_param() { k.push_str(&format!("@{}", self.path(self.envs[env].0))); }
        k
    }

    fn should_descend(&self, did: DefId) -> bool {
        if did.is_local() { return true; }
        let cn = self.tcx.crate_name(did.krate).to_string();
        if cn.starts_with("grib") { return true; }
        if cn == "num_traits" || cn == "num_enum" { return true; }
        if cn != "core" && cn != "alloc" { return false; }
        let p = self.path(did);
        DESCEND.iter().any(|d| p.starts_with(d))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: usize) -> String {
        let k = self.key(inst, env);
        if self.seen.contains(&k) { return k; }
        let ok = match inst.def {
            InstanceKind::Item(d) => self.should_descend(d) && self.tcx.is_mir_available(d) && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure),
            _ => false,
        };
        if ok { self.seen.insert(k.clone()); self.queue.push_back((inst, env)); }
        k
    }

    fn adt(&mut self, did: DefId) {
        if !self.adt_seen.insert(did) { return; }
        let tcx = self.tcx;
        let d = tcx.adt_def(did);
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() { J::I(d.discriminant_for_variant(tcx, vi).val as i128) } else { J::Null };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity();
                fs.push(a(vec![s(f.name.to_string()), s(self.tystr_skip(t)), J::B(tcx.visibility(f.did).is_public())]));
            }
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", a(fs))]));
        }
        let (file, line) = self.loc(tcx.def_span(did));
        let mut drop_fn = J::Null;
        if let Some(dd) = tcx.adt_destructor(did) { drop_fn = s(self.path(dd.did)); }
        let j = J::O(vec![
            ("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })),
            ("variants", a(vs)), ("file", i(file)), ("line", i(line)), ("drop", drop_fn),
            ("repr", s(format!("{:?}", d.repr().int))), ("pub", J::B(tcx.visibility(did).is_public())),
        ]);
        let mut o = String::new(); j.w(&mut o);
        let p = self.path(did);
        self.adts.insert(p, o);
    }

    fn ty(&mut self, t: Ty<'tcx>, env: usize) -> usize {
        let ek = if t.has_param() { env as u32 } else { u32::MAX };
        if let Some(x) = self.tymap.get(&(t, ek)) { return *x; }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert((t, ek), idx);
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, J)> = vec![("s", s(self.tystr(t)))];
        match t.kind() {
            TyKind::Bool => f.push(("k", s("bool"))),
            TyKind::Char => f.push(("k", s("char"))),
            TyKind::Int(it) => { f.push(("k", s("int"))); f.push(("w", i(it.bit_width().unwrap_or(64) as usize))); f.push(("sg", J::B(true))); }
            TyKind::Uint(it) => { f.push(("k", s("int"))); f.push(("w", i(it.bit_width().unwrap_or(64) as usize))); f.push(("sg", J::B(false))); }
            TyKind::Float(ft) => { f.push(("k", s("float"))); f.push(("w", i(ft.bit_width() as usize))); }
            TyKind::Str => f.push(("k", s("str"))),
            TyKind::Never => f.push(("k", s("never"))),
            TyKind::Adt(d, args) => {
                f.push(("k", s("adt")));
                f.push(("n", s(self.path(d.did()))));
                self.adt(d.did());
                let mut av = vec![];
                for g in args.iter() { if let ty::GenericArgKind::Type(t) = g.kind() { av.push(i(self.ty(t, env))); } }
                f.push(("a", a(av)));
                // field types instantiated
                let cn = tcx.crate_name(d.did().krate).to_string();
                let mut vs = vec![];
                if cn.starts_with("grib") || d.is_enum() || cn == "core" {
                    for v in d.variants().iter() {
                        let mut fs = vec![];
                        for fd in v.fields.iter() {
                            let fty = fd.ty(tcx, args);
                            let fty = tcx.try_normalize_erasing_regions(self.envs[env].1, fty);
                            match fty { Ok(ft) => fs.push(i(self.ty(ft, env))), Err(_) => fs.push(J::Null) }
                        }
                        vs.push(a(fs));
                    }
                    f.push(("v", a(vs)));
                }
                // destructor
                if cn.starts_with("grib") || d.did().is_local() {
                    if let Some(dd) = tcx.adt_destructor(d.did()) {
                        if !t.has_escaping_bound_vars() {
                            let args = tcx.erase_and_anonymize_regions(*args);
                            let k = self.enqueue(Instance::new_raw(dd.did, args), env);
                            f.push(("dropk", s(k)));
                        }
                    }
                }
            }
            TyKind::Ref(_, t, m) => { f.push(("k", s("ref"))); f.push(("m", J::B(m.is_mut()))); let x = self.ty(*t, env); f.push(("t", i(x))); }
            TyKind::RawPtr(t, m) => { f.push(("k", s("ptr"))); f.push(("m", J::B(m.is_mut()))); let x = self.ty(*t, env); f.push(("t", i(x))); }
            TyKind::Slice(t) => { f.push(("k", s("slice"))); let x = self.ty(*t, env); f.push(("t", i(x))); }
            TyKind::Array(t, n) => {
                f.push(("k", s("array"))); let x = self.ty(*t, env); f.push(("t", i(x)));
                if let Some(n) = n.try_to_target_usize(tcx) { f.push(("len", J::I(n as i128))); } else { f.push(("lens", s(format!("{}", n)))); }
            }
            TyKind::Tuple(ts) => { f.push(("k", s("tuple"))); let v: Vec<J> = ts.iter().map(|t| i(self.ty(t, env))).collect(); f.push(("a", a(v))); }
            TyKind::Closure(d, args) => {
                f.push(("k", s("closure"))); f.push(("n", s(self.path(*d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| i(self.ty(t, env))).collect();
                f.push(("up", a(ups)));
                let inst = Instance::new_raw(*d, args);
                let k = self.enqueue(inst, env);
                f.push(("inst", s(k)));
            }
            TyKind::FnDef(d, args) => {
                f.push(("k", s("fndef")));
                let args = self.tcx.erase_and_anonymize_regions(*args).skip_binder();
                let c = self.callee(*d, args, env);
                f.push(("c", c));
            }
            TyKind::FnPtr(..) => f.push(("k", s("fnptr"))),
            TyKind::Dynamic(p, _) => { f.push(("k", s("dyn"))); f.push(("n", s(p.principal_def_id().map(|d| self.path(d)).unwrap_or_default()))); }
            TyKind::Param(_) => f.push(("k", s("param"))),
            TyKind::Alias(..) => f.push(("k", s("alias"))),
            _ => f.push(("k", s("other"))),
        }
        // Iterator implementation
        if matches!(t.kind(), TyKind::Adt(..) | TyKind::Param(_) | TyKind::Alias(..)) {
            if let Some(itr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                let nx = tcx.associated_items(itr).in_definition_order().find(|x| x.name().as_str() == "next").map(|x| x.def_id);
                if let Some(nx) = nx {
                    let args = tcx.mk_args(&[t.into()]);
                    let e = self.envs[env].1;
                    if !t.has_escaping_bound_vars() {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, e, nx, args)));
                        if let Ok(Ok(Some(inst))) = r {
                            if !matches!(inst.def, InstanceKind::Virtual(..)) {
                                let k = self.enqueue(inst, env);
                                f.push(("next", s(k)));
                            }
                        }
                    }
                }
            }
        }
        let mut o = String::new(); J::O(f).w(&mut o);
        self.types[idx] = o;
        idx
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, J)> = vec![("p", s(self.path(did)))];
        let targs: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|t| i(self.ty(t, env))).collect();
        f.push(("a", a(targs)));
        let cargs: Vec<J> = args.iter().filter_map(|g| g.as_const()).map(|t| s(format!("{}", t))).collect();
        if !cargs.is_empty() { f.push(("ca", a(cargs))); }
        if let Some(tr) = tcx.trait_of_assoc(did) { f.push(("tr", s(self.path(tr)))); }
        if tcx.is_foreign_item(did) { f.push(("ffi", J::B(true))); }
        let r = Instance::try_resolve(tcx, self.envs[env].1, did, args);
        match r {
            Ok(Some(inst)) => {
                let d = format!("{:?}", inst.def); let d = d.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap().to_string();
                f.push(("k", s(d)));
                f.push(("rp", s(self.path(inst.def_id()))));
                let k = self.enqueue(inst, env);
                f.push(("inst", s(k)));
                if let InstanceKind::Item(_) = inst.def {
                    let ra: Vec<J> = inst.args.iter().filter_map(|g| g.as_type()).map(|t| i(self.ty(t, env))).collect();
                    f.push(("ra", a(ra)));
                }
            }
            _ => f.push(("k", s("Unresolved"))),
        }
        J::O(f)
    }

    fn const_body(&mut self, did: DefId) {
        let key = format!("const {}", self.path(did));
        if !self.consts_seen.insert(key.clone()) { return; }
        let cn = self.tcx.crate_name(did.krate).to_string();
        if !(did.is_local() || cn.starts_with("grib")) { return; }
        if !did.is_local() && !self.tcx.is_mir_available(did) { return; }
        let body = self.tcx.mir_for_ctfe(did).clone();
        self.envs.push((did, TypingEnv::post_analysis(self.tcx, did)));
        let e = self.envs.len() - 1;
        let proms: Vec<Body<'tcx>> = self.tcx.promoted_mir(did).iter().cloned().collect();
        let o = self.body_json(&body, &proms, did, e, &key);
        self.bodies.push((key, o));
    }

    fn body(&mut self, inst: Instance<'tcx>, env: usize) {
        let key = self.key(inst, env);
        let did = inst.def_id();
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def).clone();
        let e = self.envs[env].1;
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, e, ty::EarlyBinder::bind(tcx, raw)) { Ok(b) => b, Err(_) => { eprintln!("vp-driver: cannot normalize {}", key); return; } };
        let mut proms = vec![];
        if tcx.def_kind(did) != DefKind::Closure || true {
            for p in tcx.promoted_mir(did).iter() {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, e, ty::EarlyBinder::bind(tcx, p.clone())) { Ok(b) => proms.push(b), Err(_) => {} }
            }
        }
        let o = self.body_json(&body, &proms, did, env, &key);
        self.bodies.push((key, o));
    }

    fn body_json(&mut self, body: &Body<'tcx>, proms: &[Body<'tcx>], did: DefId, env: usize, _key: &str) -> String {
        let mut f: Vec<(&'static str, J)> = vec![];
        f.push(("path", s(self.path(did))));
        let (file, line) = self.loc(self.tcx.def_span(did));
        f.push(("file", i(file))); f.push(("line", i(line)));
        f.push(("local", J::B(self.tcx.crate_name(did.krate).to_string().starts_with("grib"))));
        let j = self.body_core(body, env);
        f.push(("b", j));
        let pj: Vec<J> = proms.iter().map(|b| self.body_core(b, env)).collect();
        f.push(("promoted", a(pj)));
        let mut o = String::new(); J::O(f).w(&mut o); o
    }

    fn body_core(&mut self, body: &Body<'tcx>, env: usize) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); } }
        }
        let locals: Vec<J> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty, env);
            a(vec![i(t), names.get(&l.as_usize()).map(|n| s(n.clone())).unwrap_or(J::Null)])
        }).collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements { if let Some(j) = self.stmt(body, x, env) { st.push(j); } }
            let t = self.term(body, bb.terminator(), env);
            blocks.push(a(vec![a(st), t, J::B(bb.is_cleanup)]));
        }
        J::O(vec![("argc", i(body.arg_count)), ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)), ("locals", a(locals)), ("blocks", a(blocks))])
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>, env: usize) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(self.tcx, e);
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(fi, t) => { let t = self.ty(t, env); a(vec![s("f"), i(fi.as_usize()), i(t)]) }
                ProjectionElem::Index(l) => a(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => a(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => a(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => a(vec![s("d"), i(vi.as_usize())]),
                _ => s(format!("?{:?}", e)),
            });
            pt = npt;
        }
        let t = self.ty(pt.ty, env);
        a(vec![i(p.local.as_usize()), a(v), i(t)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: usize) -> J {
        match o {
            Operand::Copy(p) => a(vec![s("cp"), self.place(body, *p, env)]),
            Operand::Move(p) => a(vec![s("mv"), self.place(body, *p, env)]),
            Operand::Constant(c) => self.constant(&c.const_, env),
            #[allow(unreachable_patterns)]
            x => a(vec![s("rt"), s(format!("{:?}", x))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t, env);
        let mut f: Vec<(&'static str, J)> = vec![("t", i(tj))];
        if let TyKind::FnDef(d, args) = t.kind() {
            let args = self.tcx.erase_and_anonymize_regions(*args).skip_binder();
            let cj = self.callee(*d, args, env);
            f.push(("fn", cj));
            return a(vec![s("k"), J::O(f)]);
        }
        if let Const::Unevaluated(u, _) = c {
            f.push(("def", s(self.path(u.def))));
            if let Some(p) = u.promoted { f.push(("prom", i(p.as_usize()))); }
            else if !matches!(tcx.def_kind(u.def), DefKind::AnonConst) { 
                if tcx.generics_of(u.def).own_requires_monomorphization() || tcx.generics_of(u.def).parent.is_some() {} 
                if !matches!(tcx.def_kind(u.def), DefKind::AssocConst{..}) || tcx.impl_of_assoc(u.def).is_some() { self.const_body(u.def); }
            }
        }
        let tenv = self.envs[env].1;
        if !matches!(c, Const::Unevaluated(u, _) if u.promoted.is_some()) {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Some(sc) = c.try_eval_scalar_int(tcx, tenv) {
                    let size = sc.size();
                    if t.is_signed() { f.push(("v", J::I(sc.to_int(size)))); }
                    else { f.push(("v", J::S(sc.to_uint(size).to_string()))); }
                }
            } else if let TyKind::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), TyKind::Slice(x) if *x == tcx.types.u8) {
                    if let Ok(v) = c.eval(tcx, tenv, rustc_span::DUMMY_SP) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() { f.push(("str", s(String::from_utf8_lossy(b).to_string()))); }
                            else { f.push(("bytes", a(b.iter().map(|x| i(*x as usize)).collect()))); }
                        }
                    }
                } else if let TyKind::Array(x, n) = inner.kind() {
                    if *x == tcx.types.u8 {
                        if let (Ok(v), Some(n)) = (c.eval(tcx, tenv, rustc_span::DUMMY_SP), n.try_to_target_usize(tcx)) {
                            if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let Some(interpret::GlobalAlloc::Memory(al)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                    let al = al.inner();
                                    let st = off.bytes() as usize;
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                    f.push(("bytes", a(b.iter().map(|x| i(*x as usize)).collect())));
                                }
                            }
                        }
                    }
                }
            }
            if let Const::Val(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), _) = c {
                let prov = p.provenance;
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(interpret::GlobalAlloc::Static(d)) => { f.push(("static", s(self.path(d)))); self.const_body(d); }
                    _ => {}
                }
            }
            if let Const::Val(ConstValue::ZeroSized, _) = c { f.push(("zst", J::B(true))); }
        }
        f.push(("d", s(format!("{}", c))));
        a(vec![s("k"), J::O(f)])
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: usize) -> J {
        match r {
            Rvalue::Use(o, ..) => a(vec![s("use"), self.operand(body, o, env)]),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(self.tcx);
                a(vec![s("rep"), self.operand(body, o, env), nn.map(|x| J::I(x as i128)).unwrap_or(s(format!("{}", n)))])
            }
            Rvalue::Ref(_, bk, p) => a(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(body, *p, env)]),
            Rvalue::RawPtr(k, p) => a(vec![s("raw"), J::B(matches!(k, RawPtrKind::Mut)), self.place(body, *p, env)]),
            Rvalue::Cast(k, o, t) => { let tj = self.ty(*t, env); let st = self.ty(o.ty(body, self.tcx), env); a(vec![s("cast"), s(format!("{:?}", k)), self.operand(body, o, env), i(tj), i(st)]) }
            Rvalue::BinaryOp(op, b) => { let (x, y) = &**b; a(vec![s("bin"), s(format!("{:?}", op)), self.operand(body, x, env), self.operand(body, y, env)]) }
            Rvalue::UnaryOp(op, o) => a(vec![s("un"), s(format!("{:?}", op)), self.operand(body, o, env)]),
            Rvalue::Discriminant(p) => a(vec![s("discr"), self.place(body, *p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t, env); a(vec![s("array"), i(t)]) }
                    AggregateKind::Tuple => a(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, fi) => { self.adt(*d); a(vec![s("adt"), s(self.path(*d)), i(vi.as_usize()), fi.map(|x| i(x.as_usize())).unwrap_or(J::Null)]) }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); let t = self.ty(t, env); a(vec![s("closure"), s(self.path(*d)), i(t)]) }
                    x => a(vec![s("other"), s(format!("{:?}", x))]),
                };
                let ov: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                a(vec![s("agg"), kj, a(ov)])
            }
            Rvalue::CopyForDeref(p) => a(vec![s("use"), a(vec![s("cp"), self.place(body, *p, env)])]),
            Rvalue::ThreadLocalRef(d) => a(vec![s("tls"), s(self.path(*d))]),
            x => a(vec![s("other"), s(format!("{:?}", x))]),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>, env: usize) -> Option<J> {
        let (_, line) = self.loc(st.source_info.span);
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                Some(a(vec![s("="), self.place(body, *p, env), self.rvalue(body, r, env), i(line)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(a(vec![s("sd"), self.place(body, **place, env), i(variant_index.as_usize()), i(line)])),
            StatementKind::Intrinsic(x) => Some(a(vec![s("intr"), s(format!("{:?}", x)), J::Null, i(line)])),
            _ => None,
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>, env: usize) -> J {
        let (file, line) = self.loc(t.source_info.span);
        let k = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![s("goto"), i(target.as_usize())],
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = self.ty(discr.ty(body, self.tcx), env);
                let v: Vec<J> = targets.iter().map(|(v, b)| a(vec![J::S(v.to_string()), i(b.as_usize())])).collect();
                vec![s("switch"), self.operand(body, discr, env), a(v), i(targets.otherwise().as_usize()), i(dt)]
            }
            TerminatorKind::Return => vec![s("ret")],
            TerminatorKind::Unreachable => vec![s("unreachable")],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("resume")],
            TerminatorKind::Drop { place, target, .. } => vec![s("drop"), self.place(body, *place, env), i(target.as_usize())],
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let av: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                vec![s("call"), self.operand(body, func, env), a(av), self.place(body, *destination, env), target.map(|t| i(t.as_usize())).unwrap_or(J::Null)]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => a(vec![s("bounds"), self.operand(body, len, env), self.operand(body, index, env)]),
                    AssertKind::Overflow(op, x, y) => a(vec![s("overflow"), s(format!("{:?}", op)), self.operand(body, x, env), self.operand(body, y, env)]),
                    AssertKind::OverflowNeg(x) => a(vec![s("overflow"), s("Neg"), self.operand(body, x, env)]),
                    AssertKind::DivisionByZero(x) => a(vec![s("divzero"), self.operand(body, x, env)]),
                    AssertKind::RemainderByZero(x) => a(vec![s("remzero"), self.operand(body, x, env)]),
                    x => a(vec![s("other"), s(format!("{:?}", x))]),
                };
                vec![s("assert"), self.operand(body, cond, env), J::B(*expected), m, i(target.as_usize())]
            }
            x => vec![s("other"), s(format!("{:?}", x))],
        };
        let mut k = k;
        k.push(i(file)); k.push(i(line));
        a(k)
    }
}
