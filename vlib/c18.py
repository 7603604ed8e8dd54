"""C18: generated code is free of unsafe; forbidden client programs are rejected while their sound twins compile."""
from .gencore import *
from . import c05, c15, c16

EXTRA = ["Xa", "Xb", "Xc", "Xd", "Xe", "Xf", "Xg", "Xh", "Xi", "Xj", "Xk", "Xl", "Xm", "Xn", "Xo"]
EXTRA += [x + "q" for x in EXTRA] + ["Xzz", "Xzzz"]


def prelude(arity, pos):
    """A world whose ArchA has `arity` components with Ca at position `pos`."""
    names = EXTRA[: arity - 1]
    cols = names[:pos] + ["Ca"] + names[pos:]
    s = "#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse gecs::prelude::*;\nuse std::rc::Rc;\n#[derive(Clone, Debug, Default)] pub struct Ca { pub v: u64, pub s: String }\n#[derive(Clone, Debug, Default)] pub struct Cb(pub u32);\n"
    s += "".join(f"#[derive(Clone, Debug, Default)] pub struct {n}(pub u64);\n" for n in names)
    s += f"ecs_world! {{ ecs_archetype!(ArchA, {', '.join(cols)}); ecs_archetype!(ArchB, Cb, Ca); ecs_archetype!(ArchC, Cb); }}\n"
    tup = ", ".join("Default::default()" for _ in cols)
    s += f"type W = EcsWorld;\nfn comps() -> ArchAComponents {{ ArchAComponents::default() }}\n"
    s += "fn mk() -> (W, Entity<ArchA>, Entity<ArchA>) { let mut w = W::default(); let a = w.create::<ArchA>(comps()); let b = w.create::<ArchA>(comps()); (w, a, b) }\n"
    s += "fn show<T>(_: T) {}\nfn stat<T: 'static>(_: T) {}\n"
    s += "fn is_send<T: Send>() {}\nfn is_sync<T: Sync>() {}\nfn send<T: Send>(_: T) {}\n"
    item = "x." + str(pos + 1)
    return s, item


# (label, binding statements for x, statement using x, class)
# classes: d/D shared or exclusive access to Ca data; g/G the same through a runtime guard; e entity references; n other borrows of the archetype
def sources(item, e="e", x="x", events=False):
    it = item.replace("x.", x + ".")
    S = [
        ("World::view", f"let mut {x} = w.view({e}).unwrap();", f"{x}.ca.v += 1;", "D"),
        ("Archetype::view(any)", f"let mut {x} = w.arch_a.view(EntityAny::from({e})).unwrap();", f"{x}.ca.v += 1;", "D"),
        ("View::component", f"let vv{x} = w.view({e}).unwrap(); let {x} = vv{x}.component::<Ca>();", f"show({x}.v);", "d"),
        ("View::component_mut", f"let mut vv{x} = w.view({e}).unwrap(); let {x} = vv{x}.component_mut::<Ca>();", f"{x}.v += 1;", "D"),
        ("view field moved out", f"let {x} = w.view({e}).unwrap().ca;", f"{x}.v += 1;", "D"),
        ("view entity", f"let {x} = w.view({e}).unwrap().entity;", f"show(*{x});", "e"),
        ("World::borrow", f"let {x} = w.borrow({e}).unwrap();", f"show({x}.component::<Ca>().v);", "n"),
        ("Archetype::borrow", f"let {x} = w.arch_a.borrow(EntityAny::from({e})).unwrap();", f"show({x}.index());", "n"),
        ("Borrow::component", f"let bb{x} = w.borrow({e}).unwrap(); let {x} = bb{x}.component::<Ca>();", f"show({x}.v);", "g"),
        ("Borrow::component_mut", f"let bb{x} = w.borrow({e}).unwrap(); let mut {x} = bb{x}.component_mut::<Ca>();", f"{x}.v += 1;", "G"),
        ("Borrow::entity", f"let bb{x} = w.borrow({e}).unwrap(); let {x} = bb{x}.entity();", f"show(*{x});", "e"),
        ("Archetype::iter", f"let mut {x} = w.arch_a.iter();", f"show({x}.next().is_some());", "d"),
        ("item of iter", f"let {x} = w.arch_a.iter().next().unwrap();", f"show({it}.v);", "d"),
        ("items of iter, collected", f"let {x}: Vec<_> = w.arch_a.iter().collect();", f"show({x}.len());", "d"),
        ("Archetype::iter_mut", f"let mut {x} = w.arch_a.iter_mut();", f"show({x}.next().is_some());", "D"),
        ("item of iter_mut", f"let {x} = w.arch_a.iter_mut().next().unwrap();", f"{it}.v += 1;", "D"),
        ("entity of iter_mut", f"let {x} = w.arch_a.iter_mut().next().unwrap().0;", f"show(*{x});", "e"),
        ("get_slice", f"let {x} = w.arch_a.get_slice::<Ca>();", f"show({x}[0].v);", "d"),
        ("get_slice_mut", f"let {x} = w.arch_a.get_slice_mut::<Ca>();", f"{x}[0].v += 1;", "D"),
        ("get_all_slices_mut", f"let {x} = w.arch_a.get_all_slices_mut();", f"{x}.ca[0].v += 1;", "D"),
        ("slice field", f"let {x} = w.arch_a.get_all_slices_mut().ca;", f"{x}[0].v += 1;", "D"),
        ("entity slice field", f"let {x} = w.arch_a.get_all_slices_mut().entity;", f"show({x}[0]);", "e"),
        ("borrow_slice", f"let {x} = w.arch_a.borrow_slice::<Ca>();", f"show({x}[0].v);", "g"),
        ("borrow_slice_mut", f"let mut {x} = w.arch_a.borrow_slice_mut::<Ca>();", f"{x}[0].v += 1;", "G"),
        ("entities", f"let {x} = w.arch_a.entities();", f"show({x}[0]);", "e"),
        ("element of entities", f"let {x} = &w.arch_a.entities()[0];", f"show(*{x});", "e"),
        ("World::archetype", f"let {x} = w.archetype::<ArchA>();", f"show({x}.len());", "n"),
        ("World::archetype_mut", f"let {x} = w.archetype_mut::<ArchA>();", f"show({x}.len());", "n"),
        ("slice through archetype_mut", f"let {x} = w.archetype_mut::<ArchA>().get_slice_mut::<Ca>();", f"{x}[0].v += 1;", "D"),
        ("resolve_get_slice", f"let {x} = ArchetypeHas::<Ca>::resolve_get_slice(&mut w.arch_a);", f"show({x}[0].v);", "d"),
        ("resolve_get_slice_mut", f"let {x} = ArchetypeHas::<Ca>::resolve_get_slice_mut(&mut w.arch_a);", f"{x}[0].v += 1;", "D"),
        ("resolve_borrow_slice", f"let {x} = ArchetypeHas::<Ca>::resolve_borrow_slice(&w.arch_a);", f"show({x}[0].v);", "g"),
        ("resolve_view", f"let mut {x} = ArchetypeCanResolve::resolve_view(&mut w.arch_a, {e}).unwrap();", f"{x}.ca.v += 1;", "D"),
        ("resolve_borrow", f"let {x} = ArchetypeCanResolve::resolve_borrow(&w.arch_a, {e}).unwrap();", f"show({x}.index());", "n"),
        ("resolve_extract_view", f"let vv{x} = w.view({e}).unwrap(); let {x} = <ArchA as ArchetypeHas<Ca>>::resolve_extract_view(&vv{x});", f"show({x}.v);", "d"),
        ("resolve_extract_view_mut", f"let mut vv{x} = w.view({e}).unwrap(); let {x} = <ArchA as ArchetypeHas<Ca>>::resolve_extract_view_mut(&mut vv{x});", f"{x}.v += 1;", "D"),
        ("resolve_extract_borrow_mut", f"let bb{x} = w.borrow({e}).unwrap(); let mut {x} = <ArchA as ArchetypeHas<Ca>>::resolve_extract_borrow_mut(&bb{x});", f"{x}.v += 1;", "G"),
        ("nth item of iter_mut", f"let {x} = w.arch_a.iter_mut().nth(1).unwrap();", f"{it}.v += 1;", "D"),
        ("last item of iter_mut", f"let {x} = w.arch_a.iter_mut().last().unwrap();", f"{it}.v += 1;", "D"),
        ("Ref::map of a borrow", f"let bb{x} = w.borrow({e}).unwrap(); let {x} = std::cell::Ref::map(bb{x}.component::<Ca>(), |c| &c.s);", f"show({x}.len());", "g"),
    ]
    if events:
        S += [
            ("Archetype::iter_created", f"let mut {x} = w.arch_a.iter_created();", f"show({x}.next().is_some());", "n"),
            ("item of Archetype::iter_created", f"let {x} = w.arch_a.iter_created().next().unwrap();", f"show(*{x});", "n"),
            ("item of Archetype::iter_destroyed", f"let {x} = w.arch_a.iter_destroyed().next().unwrap();", f"show(*{x});", "n"),
            ("World::iter_created", f"let mut {x} = w.iter_created();", f"show({x}.next().is_some());", "n"),
            ("item of World::iter_created", f"let {x} = w.iter_created().next().unwrap();", f"show(*{x});", "n"),
            ("items of World::iter_destroyed", f"let {x}: Vec<&EntityAny> = w.iter_destroyed().collect();", f"show({x}.len());", "n"),
        ]
    return S


CHANGES = [
    ("World::create", "w.create::<ArchA>(comps());"),
    ("Archetype::create", "w.arch_a.create(comps());"),
    ("create_within_capacity", "let _ = w.arch_a.create_within_capacity(comps());"),
    ("World::create_within_capacity", "let _ = w.create_within_capacity::<ArchA>(comps());"),
    ("World::destroy(Entity)", "w.destroy(e2);"),
    ("World::destroy(EntityAny)", "w.destroy(EntityAny::from(e2));"),
    ("Archetype::destroy(Entity)", "w.arch_a.destroy(e2);"),
    ("Archetype::destroy(EntityAny)", "w.arch_a.destroy(EntityAny::from(e2));"),
    ("Archetype::destroy(EntityDirect)", "w.arch_a.destroy(d2);"),
    ("ecs_iter_destroy!", "ecs_iter_destroy!(w, |_: &Ca| EcsStepDestroy::ContinueDestroy);"),
    ("assignment", "w = W::default();"),
    ("archetype assignment", "w.arch_a = ArchA::default();"),
    ("drop", "drop(w);"),
    ("move", "let w3 = w; show(w3);"),
    ("mem::take", "show(std::mem::take(&mut w));"),
    ("mem::swap of archetypes", "std::mem::swap(&mut w.arch_a, &mut o.arch_a);"),
    ("clone_from", "w.clone_from(&o);"),
]
EVENT_CHANGES = [("World::clear_events", "w.clear_events();"), ("Archetype::clear_events", "w.arch_a.clear_events();")]
HEAD = "let (mut w, e, e2) = mk(); let (mut o, _, _) = mk(); let d2 = w.arch_a.to_direct(e2).unwrap();"

QUERY_OPS = [
    ("ecs_iter! &mut", "ecs_iter!(w, |c: &mut Ca| { c.v += 1; });", "D"),
    ("ecs_iter! &", "ecs_iter!(w, |c: &Ca| { show(c.v); });", "d"),
    ("ecs_iter_destroy! &mut", "ecs_iter_destroy!(w, |c: &mut Ca| { c.v += 1; });", "D"),
    ("ecs_iter_borrow! &mut", "ecs_iter_borrow!(w, |c: &mut Ca| { c.v += 1; });", "G"),
    ("ecs_find! &mut", "ecs_find!(w, e2, |c: &mut Ca| { c.v += 1; });", "D"),
    ("ecs_find! OneOf", "ecs_find!(w, e2, |c: &mut OneOf<Ca, Xnone>, en: &Entity<ArchA>| { show(en); });", "D"),
    ("ecs_find_borrow! &mut", "ecs_find_borrow!(w, e2, |c: &mut Ca| { c.v += 1; });", "G"),
    ("World::clone", "show(w.clone());", "g"),
    ("Archetype::clone", "show(w.arch_a.clone());", "g"),
]


def conflict(a, b):
    """Would the two accesses, both alive, alias unsoundly if the program compiled?"""
    if a in "en" or b in "en":
        return False
    if a in "dg" and b in "dg":
        return False
    if a in "gG" and b in "gG":
        return False
    return True


MACS = c05.MACS


def qcall(mac, world, params, body, key="e"):
    if mac.startswith("ecs_find"):
        return f"{mac}!({world}, {key}, |{params}| {{ {body} }});"
    return f"{mac}!({world}, |{params}| {{ {body} }});"


def corpus(item, events=False):
    """(class, label, forbidden body, sound body)"""
    C = []

    def add(cls, label, neg, pos):
        C.append((cls, label, neg, pos))
    S = sources(item, events=events)
    for l, bind, use, k in S:
        for cl, ch in CHANGES + (EVENT_CHANGES if events else []):
            add("structural", f"{l} kept across {cl}", f"{HEAD} {bind} {ch} {use}", f"{HEAD} {{ {bind} {use} }} {ch}")
        add("escape", f"{l} outlives the world", f"{HEAD} {bind} stat(x);", f"{HEAD} {bind} show(x);")
    T = sources(item, "e2", "y")
    for l, bind, use, k in S:
        for l2, bind2, use2, k2 in T:
            if conflict(k, k2):
                add("alias", f"{l} together with {l2}", f"{HEAD} {bind} {bind2} {use} {use2}", f"{HEAD} {{ {bind} {use} }} {{ {bind2} {use2} }}")
        for l2, op, k2 in QUERY_OPS:
            if conflict(k, k2):
                add("alias", f"{l} together with {l2}", f"{HEAD} {bind} {op} {use}", f"{HEAD} {{ {bind} {use} }} {op}")
    # inside closures
    heads = [("&Ca", "c: &Ca"), ("&mut Ca", "c: &mut Ca"), ("OneOf", "c: &OneOf<Ca, Xnone>"), ("Entity", "c: &Entity<ArchA>"), ("EntityAny", "c: &EntityAny"), ("EntityDirectAny", "c: &EntityDirectAny"), ("EntityDirect<_>", "c: &EntityDirect<_>"), ("Entity<_>", "c: &Entity<_>")]
    for mac in MACS:
        ret = "EcsStepDestroy::Continue" if mac == "ecs_iter_destroy" else ""
        for hl, p in heads:
            for cl, ch in CHANGES:
                if cl in ("drop", "move"):
                    continue
                add("in closure", f"{cl} inside {mac}! with {hl}", f"{HEAD} {qcall(mac, 'w', p, ch + ' ' + ret)}", f"{HEAD} {qcall(mac, 'w', p, 'show(c); ' + ret)} {ch}")
            if hl in ("&Ca", "&mut Ca", "OneOf"):
                add("escape", f"{hl} stored outside {mac}!", f"{HEAD} let mut out = None; {qcall(mac, 'w', p, 'out = Some(c); ' + ret)} show(out);",
                    f"{HEAD} let mut out = None; {qcall(mac, 'w', p, 'out = Some(c.v); ' + ret)} show(out);")
            if hl in ("Entity", "EntityAny", "EntityDirectAny"):
                add("escape", f"{hl} reference stored outside {mac}!", f"{HEAD} let mut out = None; {qcall(mac, 'w', p, 'out = Some(c); ' + ret)} show(out);",
                    f"{HEAD} let mut out = None; {qcall(mac, 'w', p, 'out = Some(*c); ' + ret)} show(out);")
        # data access to the same column inside the closure of an exclusive query
        if not mac.endswith("borrow"):
            for l2, bind2, use2, k2 in T:
                if k2 in "dDgG":
                    add("alias", f"{l2} inside {mac}!", f"{HEAD} {qcall(mac, 'w', 'c: &mut Ca', bind2 + ' ' + use2 + ' c.v += 1; ' + ret)}", f"{HEAD} {qcall(mac, 'w', 'c: &mut Ca', 'c.v += 1; ' + ret)} {{ {bind2} {use2} }}")
        # two accesses to one component
        if not mac.endswith("borrow"):
            pairs = [("a: &mut Ca, b: &mut Ca", "a: &mut Ca, b: &mut Cb"), ("a: &mut Ca, b: &Ca", "a: &mut Ca, b: &Cb"), ("a: &Ca, b: &mut Ca", "a: &Ca, b: &mut Cb"),
                     ("a: &mut Ca, b: &mut OneOf<Ca, Xnone>", "a: &mut Cb, b: &mut OneOf<Ca, Xnone>"), ("a: &mut OneOf<Ca, Xnone>, b: &mut OneOf<Xnone, Ca>", "a: &mut OneOf<Ca, Xnone>, b: &mut OneOf<Xnone, Cb>"),
                     ("a: &mut OneOf<Xnone, Ca>, b: &Ca", "a: &mut OneOf<Xnone, Ca>, b: &Cb"), ("a: &Ca, e3: &EntityAny, b: &mut Ca", "a: &Ca, e3: &EntityAny, b: &mut Cb"),
                     ("a: &mut Ca, b: &Cb, c: &mut Ca", "a: &mut Ca, b: &Cb, c: &Entity<_>"), ("e3: &Entity<ArchB>, a: &mut Ca, b: &mut Ca", "e3: &Entity<ArchB>, a: &mut Ca, b: &mut Cb")]
            for n, p in pairs:
                body = "show(&*a); show(&*b); " + ret
                add("two accesses", f"{mac}! |{n}|", f"{HEAD} {qcall(mac, 'w', n, body, 'eb')}".replace("let d2", "let eb = w.create::<ArchB>((Cb(1), Ca::default())); let d2"),
                    f"{HEAD} {qcall(mac, 'w', p, body, 'eb')}".replace("let d2", "let eb = w.create::<ArchB>((Cb(1), Ca::default())); let d2"))
        # handles are read-only
        for h in ("Entity<ArchA>", "Entity<_>", "EntityAny", "EntityDirect<ArchA>", "EntityDirect<_>", "EntityDirectAny"):
            for tmpl in ("h: &{m}{h}", "h: &{m}{h}, c: &Ca", "c: &mut Ca, h: &{m}{h}", "#[cfg(all())] h: &{m}{h}, c: &Ca"):
                add("mut handle", f"{mac}! &mut {h} in |{tmpl}|", f"{HEAD} {qcall(mac, 'w', tmpl.format(m='mut ', h=h), 'show(&*h); ' + ret)}", f"{HEAD} {qcall(mac, 'w', tmpl.format(m='', h=h), 'show(&*h); ' + ret)}")
            if "ArchA" in h or "_" in h:
                add("mut handle", f"{mac}! assigns through &{h}", f"{HEAD} {qcall(mac, 'w', f'h: &{h}, c: &Entity<ArchA>', ('*h = e2; ' if not 'Direct' in h else '*h = d2; ') + ret)}", f"{HEAD} {qcall(mac, 'w', f'h: &{h}, c: &Entity<ArchA>', ('let mut h2 = *h; h2 = e2; ' if not 'Direct' in h else 'let mut h2 = *h; h2 = d2; ') + ret)}")
        # a mutable entity column any other way
    for l, neg, pos in (("view", "let mut v = w.view(e).unwrap(); *v.entity = e2;", "let mut v = w.view(e).unwrap(); let mut z = *v.entity; z = e2;"),
                        ("slices", "let s = w.arch_a.get_all_slices_mut(); s.entity[0] = e2;", "let s = w.arch_a.get_all_slices_mut(); let mut z = s.entity[0]; z = e2;"),
                        ("iter_mut", "for x in w.arch_a.iter_mut() { *x.0 = e2; }", "for x in w.arch_a.iter_mut() { let mut z = *x.0; z = e2; }"),
                        ("entities", "w.arch_a.entities()[0] = e2;", "let mut z = w.arch_a.entities()[0]; z = e2;"),
                        ("borrow", "let b = w.borrow(e).unwrap(); *b.entity() = e2;", "let b = w.borrow(e).unwrap(); let mut z = *b.entity(); z = e2;"),
                        ("swap of entity slices", "let s = w.arch_a.get_all_slices_mut(); s.entity.swap(0, 1);", "let s = w.arch_a.get_all_slices_mut(); s.ca.swap(0, 1);")):
        add("mut handle", f"entity column written through {l}", f"{HEAD} {neg}", f"{HEAD} {pos}")
    # one view, borrow or component set used twice
    inner = {"v.component_mut::<Ca>()": "D", "v.component::<Ca>()": "d", "&mut v.ca": "D", "&v.ca": "d", "<ArchA as ArchetypeHas<Ca>>::resolve_extract_view_mut(&mut v)": "D", "<ArchA as ArchetypeHas<Ca>>::resolve_extract_view(&v)": "d"}
    for p, kp in inner.items():
        for q, kq in inner.items():
            if conflict(kp, kq):
                use = lambda n, k: f"{n}.v += 1;" if k == "D" else f"show({n}.v);"
                add("alias", f"{p} with {q}", f"{HEAD} let mut v = w.view(e).unwrap(); let a = {p}; let b = {q}; {use('a', kp)} {use('b', kq)}", f"{HEAD} let mut v = w.view(e).unwrap(); {{ let a = {p}; {use('a', kp)} }} let b = {q}; {use('b', kq)}")
    add("alias", "two component_mut of one component set", f"{HEAD} let mut c = w.destroy(e).unwrap(); let a = c.get_mut::<Ca>(); let b = c.get_mut::<Ca>(); a.v += 1; b.v += 1;", f"{HEAD} let mut c = w.destroy(e).unwrap(); {{ let a = c.get_mut::<Ca>(); a.v += 1; }} let b = c.get_mut::<Ca>(); b.v += 1;")
    add("escape", "component reference outlives its component set", f"{HEAD} let mut c = w.destroy(e).unwrap(); let a = c.get_mut::<Ca>(); drop(c); a.v += 1;", f"{HEAD} let mut c = w.destroy(e).unwrap(); let a = c.get_mut::<Ca>(); a.v += 1; drop(c);")
    add("alias", "a view and its duplicate", f"{HEAD} let v = w.view(e).unwrap(); let mut u = v.clone(); let mut v2 = v; u.ca.v += 1; v2.ca.v += 1;", f"{HEAD} let v = w.view(e).unwrap(); let mut u = v; u.ca.v += 1;")
    add("alias", "a view used after a copy", f"{HEAD} let mut v = w.view(e).unwrap(); let mut u = v; v.ca.v += 1; u.ca.v += 1;", f"{HEAD} let mut v = w.view(e).unwrap(); v.ca.v += 1; let mut u = v; u.ca.v += 1;")
    add("alias", "the slices twice", f"{HEAD} let s = w.arch_a.get_all_slices_mut(); let t = w.arch_a.get_all_slices_mut(); s.ca[0].v += 1; t.ca[0].v += 1;", f"{HEAD} let s = w.arch_a.get_all_slices_mut(); s.ca[0].v += 1; let t = w.arch_a.get_all_slices_mut(); t.ca[0].v += 1;")
    add("alias", "the iterator duplicated", f"{HEAD} let mut s = w.arch_a.iter_mut(); let mut t = s.clone(); show((s.next().unwrap(), t.next().unwrap()));", f"{HEAD} let mut s = w.arch_a.iter_mut(); show((s.next().unwrap(), s.next().unwrap()));")
    # a lifetime the caller picks
    for l, sig, body, good in (("view", "-> <ArchA as Archetype>::View<'b>", "w.view(e).unwrap()", "'a"), ("borrow", "-> <ArchA as Archetype>::Borrow<'b>", "w.borrow(e).unwrap()", "'a"),
                               ("slices", "-> <ArchA as Archetype>::Slices<'b>", "w.arch_a.get_all_slices_mut()", "'a"), ("slice", "-> &'b mut [Ca]", "w.arch_a.get_slice_mut::<Ca>()", "'a"),
                               ("shared slice", "-> &'b [Ca]", "w.arch_a.get_slice::<Ca>()", "'a"), ("slice guard", "-> std::cell::RefMut<'b, [Ca]>", "w.arch_a.borrow_slice_mut::<Ca>()", "'a"),
                               ("component of a view", "-> &'b mut Ca", "w.view(e).unwrap().ca", "'a"), ("items of iter_mut", f"-> Vec<<ArchA as Archetype>::IterItemMut<'b>>", "w.arch_a.iter_mut().collect()", "'a"),
                               ("items of iter", f"-> Vec<<ArchA as Archetype>::IterItem<'b>>", "w.arch_a.iter().collect()", "'a"), ("iter_mut", f"-> Box<dyn Iterator<Item = <ArchA as Archetype>::IterItemMut<'b>> + 'b>", "Box::new(w.arch_a.iter_mut())", "'a"),
                               ("entities", "-> &'b [Entity<ArchA>]", "w.arch_a.entities()", "'a")):
        add("escape", f"{l} with a lifetime of the caller's choosing", f"fn f<'a, 'b>(w: &'a mut W, e: Entity<ArchA>) {sig} {{ {body} }}", f"fn f<'a>(w: &'a mut W, e: Entity<ArchA>) {sig.replace(chr(39) + 'b', good)} {{ {body} }}")
    for l, t in (("View", "<ArchA as Archetype>::View"), ("Slices", "<ArchA as Archetype>::Slices"), ("Borrow", "<ArchA as Archetype>::Borrow")):
        add("escape", f"{l} of a short lifetime used as a longer one", f"fn f<'a, 'b: 'a>(x: {t}<'a>) -> {t}<'b> {{ x }}", f"fn f<'a, 'b: 'a>(x: {t}<'b>) -> {t}<'b> {{ x }}")
    # loops
    for it in ("iter", "iter_mut"):
        for cl, ch in CHANGES:
            if cl in ("drop", "move"):
                continue
            add("structural", f"{cl} in a loop over {it}", f"{HEAD} for x in w.arch_a.{it}() {{ {ch} }}", f"{HEAD} for x in w.arch_a.{it}() {{ show(x); }} {ch}")
    for cl, ch in CHANGES[:9]:
        add("structural", f"{cl} in a loop over entities()", f"{HEAD} for x in w.arch_a.entities() {{ {ch} }}", f"{HEAD} for x in w.arch_a.entities().to_vec() {{ {ch} }}".replace("d2)", "d2)"))
    # threads
    for l, ref in (("the world", "w"), ("one archetype", "w.arch_a"), ("one empty archetype", "w.arch_c")):
        for op in ("len", "borrow"):
            use = f"show({ref}.len())" if ref != "w" else "show(w.arch_a.len())"
            if op == "borrow":
                use = f"show({ref}.borrow_slice::<Cb>().len())" if ref == "w.arch_c" else f"show({'w.arch_a' if ref == 'w' else ref}.borrow_slice_mut::<Ca>().len())"
            add("sharing", f"{l} shared by scoped threads ({op})", f"{HEAD} let r = &{ref}; std::thread::scope(|s| {{ s.spawn(|| {{ show(r); }}); s.spawn(|| {{ {use}; }}); }});",
                f"{HEAD} let r = &{ref}; show(r); {use};")
    add("sharing", "Arc<World> in two threads", f"{HEAD} let a = std::sync::Arc::new(w); let b = a.clone(); let t = std::thread::spawn(move || show(b.arch_a.len())); show(a.arch_a.len()); t.join().unwrap();",
        f"{HEAD} let a = std::sync::Arc::new(std::sync::Mutex::new(w)); let b = a.clone(); let t = std::thread::spawn(move || show(b.lock().unwrap().arch_a.len())); show(a.lock().unwrap().arch_a.len()); t.join().unwrap();")
    add("sharing", "a static world", "static WORLD: std::sync::OnceLock<W> = std::sync::OnceLock::new(); WORLD.get_or_init(|| W::default());", "static WORLD: std::sync::OnceLock<std::sync::Mutex<W>> = std::sync::OnceLock::new(); WORLD.get_or_init(|| std::sync::Mutex::new(W::default()));")
    for t in ("W", "ArchA", "ArchB", "ArchC"):
        add("sharing", f"{t}: Sync", f"is_sync::<{t}>();", f"is_send::<{t}>();")
        add("sharing", f"&{t}: Send", f"is_send::<&'static {t}>();", f"is_send::<&'static mut {t}>();")
    for t in ("<ArchA as Archetype>::Borrow<'static>",):
        add("sharing", f"{t}: Send", f"is_send::<{t}>();", "is_send::<ArchAComponents>();")
        add("sharing", f"{t}: Sync", f"is_sync::<{t}>();", "is_sync::<ArchAComponents>();")
    add("sharing", "runtime borrow sent to a thread", f"{HEAD} let b = w.borrow(e).unwrap(); std::thread::scope(|s| {{ s.spawn(move || show(b.component::<Ca>().v)); }});", f"{HEAD} let b = w.borrow(e).unwrap(); {{ show(b.component::<Ca>().v); }}")
    add("sharing", "slice guard sent to a thread", f"{HEAD} let b = w.arch_a.borrow_slice_mut::<Ca>(); std::thread::scope(|s| {{ s.spawn(move || show(b.len())); }});", f"{HEAD} let b = w.arch_a.borrow_slice_mut::<Ca>(); {{ show(b.len()); }}")
    return C


BADCOMPS = [("Rc", "pub struct Bad(pub std::rc::Rc<u32>);", False, False), ("raw pointer", "pub struct Bad(pub *mut u8);", False, False),
            ("MutexGuard", "pub struct Bad(pub std::sync::MutexGuard<'static, u32>);", False, True), ("PhantomData<Rc>", "pub struct Bad(pub std::marker::PhantomData<std::rc::Rc<u8>>);", False, False),
            ("Cell", "pub struct Bad(pub std::cell::Cell<u8>);", True, False), ("dyn without Send", "pub struct Bad(pub Box<dyn Fn() -> u32>);", False, False), ("plain", "pub struct Bad(pub u32);", True, True)]


def autotrait(rng, maxc):
    """A world with one component of a chosen kind at a random position; forbidden and required auto-traits."""
    name, decl, snd, syn = rng.choice(BADCOMPS)
    na = rng.randint(1, 3)
    which = rng.randrange(na)
    s = "#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse gecs::prelude::*;\nfn is_send<T: Send>() {}\nfn is_sync<T: Sync>() {}\nfn send<T: Send>(_: T) {}\nfn show<T>(_: T) {}\nfn handle<T: Copy + Clone + Send + Sync + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Unpin + 'static>() {}\n" + decl + "\n"
    s += "pub struct Good(pub u32);\n" + "".join(f"pub struct {n}(pub u32);\n" for n in EXTRA)
    archs = []
    for k in range(na):
        n = rng.choice([1, 1, 2, 3, 4, maxc])
        cs = rng.sample(EXTRA, n)
        if k == which:
            cs[rng.choice([0, n - 1, rng.randrange(n)])] = "Bad"
        archs.append((f"Arch{'ABC'[k]}", cs))

    def world(nm, sub=None):
        return "ecs_world! { ecs_name!(" + nm + "); " + " ".join(f"ecs_archetype!({a}, {', '.join(c if c != 'Bad' or not sub else sub for c in cs)});" for a, cs in archs) + " }\n"
    s += world("Wb")
    A, cs = archs[which]
    fld = f"arch_{A[-1].lower()}"
    pos = "".join(f"    handle::<Entity<{a}>>(); handle::<EntityDirect<{a}>>();\n" for a, _ in archs) + "    handle::<EntityAny>(); handle::<EntityDirectAny>();\n"
    pos += "    is_send::<SelectArchetype>(); is_sync::<SelectEntity>();\n"
    pos += f"    let (tx, rx) = std::sync::mpsc::channel::<Entity<{A}>>(); std::thread::spawn(move || {{ for e in rx {{ show(e); }} }});\n"
    if name == "plain":
        pos += "    is_send::<Wb>();\n" + "".join(f"    is_send::<{a}>();\n" for a, _ in archs)
        pos += "    let mut w = Wb::default(); std::thread::spawn(move || { show(&mut w); }).join().unwrap();\n"
    pos += "".join(f"    is_send::<{a}>();\n" for k, (a, _) in enumerate(archs) if k != which)
    negs = [("the world is Sync", "is_sync::<Wb>();")] + [(f"{a} is Sync", f"is_sync::<{a}>();") for a, _ in archs]
    if not snd:
        negs += [(f"a world with a {name} component is Send", "is_send::<Wb>();"), (f"an archetype with a {name} component is Send", f"is_send::<{A}>();"),
                 (f"a world with a {name} component moves to a thread", "let mut w = Wb::default(); std::thread::spawn(move || { show(&mut w); });"),
                 (f"&mut world with a {name} component moves to a thread", "let mut w = Wb::default(); let r = &mut w; std::thread::scope(|s| { s.spawn(move || { show(r); }); });"),
                 (f"a view of a {name} component is Send", f"is_send::<<{A} as Archetype>::View<'static>>();"),
                 (f"slices of a {name} component are Send", f"is_send::<<{A} as Archetype>::Slices<'static>>();"),
                 (f"the components of a {name} archetype are Send", f"is_send::<<{A} as Archetype>::Components>();"),
                 (f"an iterator over a {name} component is Send", f"let mut w = Wb::default(); send(w.{fld}.iter_mut());"),
                 (f"a shared iterator over a {name} component is Send", f"let mut w = Wb::default(); send(w.{fld}.iter());"),
                 (f"a slice of a {name} component is Send", f"let mut w = Wb::default(); send(w.{fld}.get_slice_mut::<Bad>());")]
    if not syn:
        negs += [(f"a view of a {name} component is Sync", f"is_sync::<<{A} as Archetype>::View<'static>>();"), (f"slices of a {name} component are Sync", f"is_sync::<<{A} as Archetype>::Slices<'static>>();"),
                 (f"shared slice of a {name} component is Send", f"let mut w = Wb::default(); send(w.{fld}.get_slice::<Bad>());"),
                 (f"an item of iter over a {name} component is Send", f"let mut w = Wb::default(); send(w.{fld}.iter().next());"),
                 (f"an iterator lending a {name} component shared is Send", f"let mut w = Wb::default(); send(w.{fld}.iter());")]
    # everything a plain component would allow, as the twin of the rejections above (an archetype is Send when its components are)
    twin_world = "mod twin { use super::*; " + world("Wt", "Good") + "pub fn f() { is_send::<Wt>(); " + " ".join(f"is_send::<{a}>();" for a, _ in archs) + f" is_send::<<{A} as Archetype>::View<'static>>(); is_send::<<{A} as Archetype>::Slices<'static>>(); }} }}\n"
    return name, (na, which, tuple(len(c) for _, c in archs), cs.index("Bad")), s, pos, negs, twin_world


DERIVED = re.compile(r"#\[automatically_derived\]\s*(?:#\[[^\]]*\]\s*)*(?:unsafe )?impl\b[^{;]*?::core::(?:clone::(?:Clone|TrivialClone)|marker::(?:Copy|StructuralPartialEq)|fmt::Debug|cmp::(?:PartialEq|Eq|PartialOrd|Ord)|hash::Hash|default::Default)\b[^{;]*?\bfor\b[^{;]*\{")
UNSAFE = re.compile(r"\b(unsafe|no_mangle|export_name|link_section)\b")


def strip_tokens(text):
    """Removes comments, string and char literals."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|b?r(#+)".*?"\1|b?"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\\\'\n])\'', " ", text, flags=re.S)


def unsafe_tokens(text):
    t = strip_tokens(text)
    # what rustc's own derives emit is not gecs's
    out, i = [], 0
    for m in DERIVED.finditer(t):
        if m.start() < i:
            continue
        j, depth = m.end(), 1
        while j < len(t) and depth:
            depth += {"{": 1, "}": -1}.get(t[j], 0)
            j += 1
        out.append(t[i: m.start()])
        i = j
    t = " ".join(out + [t[i:]])
    return [(m.group(0), t[max(0, m.start() - 150): m.end() + 100]) for m in UNSAFE.finditer(t)]


def run(prop, tier, seed):
    v = Verdict(prop, tier, seed)
    thorough = tier == "thorough"
    stable = [Lib("base"), Lib("full", features=["events", "32_components", "wrapping_version"], release=True)]
    night = [Lib("nbase", nightly=True), Lib("nfull", features=["events", "32_components", "wrapping_version"], nightly=True)]
    pmap(lambda l: l.build(), stable + night)
    for l in stable + night:
        if l.error:
            v.inconclusive.append(f"gecs does not build: {l.error[-1000:]}")
            return v.finish("exploration", "", [])
    d0 = workdir("C18")
    lock = threading.Lock()
    deadline = time.time() + (780 if thorough else 120)
    tot = {"forbidden_programs": 0, "sound_twins": 0, "corpus_worlds": 0, "autotrait_worlds": 0, "expansions_scanned": 0, "tokens_scanned": 0, "forbidden_compiled_singly": 0}
    byclass = {}
    distinct = set()

    def shape_job(t):
        lib, arity, pos = t
        if v.violations:
            return
        pre, item = prelude(arity, pos)
        pre += "pub struct Xnone;\n"
        C = corpus(item, bool(lib.features))
        d = os.path.join(d0, f"corpus-{'full' if lib.features else 'base'}-{arity}-{pos}")
        os.makedirs(d)
        # twins, together, and run
        groups = {}
        for n, (cls, label, neg, pos_) in enumerate(C):
            groups.setdefault(cls, []).append((n, label, neg, pos_))
        for cls, its in groups.items():
            if v.violations:
                return
            twins = pre + "".join(f"fn t{n}() {{ {p} }}\n" for n, _, _, p in its) + "fn main() {}\n"
            skip = {}
            first = pre.count("\n") + 1
            for _ in range(4):
                left = [x for x in its if x[0] not in skip]
                if not left:
                    break
                dd = os.path.join(d, f"twins-{cls.replace(' ', '_')}")
                os.makedirs(dd, exist_ok=True)
                tp = write(os.path.join(dd, "main.rs"), pre + "".join(f"fn t{n}() {{ {p} }}\n" for n, _, _, p in left) + "fn main() {}\n")
                r = call(lib.cmd(tp, tp + ".rmeta", emit="metadata", extra=["--error-format=json"]), timeout=400)
                if r.rc == 0:
                    break
                # a sound program that does not compile leaves its partner undecided
                lines, _ = error_lines(r.err)
                hit = [x for j, x in enumerate(left) if first + j in lines]
                for n, l, _, _ in hit or left:
                    skip[n] = l
                if not hit:
                    break
            its = [x for x in its if x[0] not in skip]
            nb = NegBatch(pre, [(f"{cls}: {l}", f"fn n{n}() {{ {g} }}\n") for n, l, g, _ in its])
            bad, odd, single = nb.accepted(lib, os.path.join(d, "neg-" + cls.replace(" ", "_")))
            with lock:
                for k, p, src in bad:
                    v.violate(f"[arity {arity}, position {pos}] unsound program compiles ({nb.items[k][0]})", f"{' '.join(lib.cmd(p, '/dev/null', emit='metadata'))}\n\n{src}")
                for k, e in odd:
                    v.inconclusive.append(f"{nb.items[k][0]}: {e}")
                if skip:
                    v.inconclusive.append(f"{len(skip)} sound twins of class {cls} do not compile (arity {arity}), for example: {next(iter(skip.values()))}")
                v.evaluations += len(its) * 2
                tot["forbidden_programs"] += len(its)
                tot["sound_twins"] += len(its)
                tot["forbidden_compiled_singly"] += single
                byclass[cls] = byclass.get(cls, 0) + len(its)
                for n, l, _, _ in its:
                    distinct.add((cls, l))
        with lock:
            tot["corpus_worlds"] += 1

    def auto_job(k):
        if v.violations:
            return
        rng = random.Random(f"c18a-{seed}-{k}")
        lib = stable[k % 2]
        name, shape, pre, pos, negs, twin = autotrait(rng, 32 if lib.features else 16)
        d = os.path.join(d0, f"auto-{k}")
        os.makedirs(d)
        src = pre + f"fn main() {{\n{pos}}}\n"
        p = write(os.path.join(d, "pos.rs"), src)
        c = lib.cmd(p, p + ".rmeta", emit="metadata")
        r = call(c)
        tw = write(os.path.join(d, "twin.rs"), pre + twin + "fn main() { twin::f(); }\n")
        rt = call(lib.cmd(tw, tw + ".rmeta", emit="metadata"))
        with lock:
            if r.odd or rt.odd:
                v.inconclusive.append(f"auto-trait world {k}: {r.err[-300:]}")
                return
            if r.rc != 0:
                # is it the declaration, or the auto-traits?
                q = write(os.path.join(d, "decl.rs"), pre + "fn main() {}\n")
                if call(lib.cmd(q, q + ".rmeta", emit="metadata")).rc != 0:
                    v.inconclusive.append(f"auto-trait world {k}: the declaration does not compile: {first_errors(r.err, 2)}")
                else:
                    v.violate(f"[auto-trait world {k} seed {seed}] handles are not Copy + Send + Sync (or a world of Send components is not Send) with a {name} component: {first_errors(r.err, 2)}", f"{' '.join(c)}\n{r.err[-6000:]}\n\n{src}")
                return
            if rt.rc != 0:
                v.inconclusive.append(f"auto-trait world {k}: the twin with plain components does not compile: {first_errors(rt.err, 2)}")
        nb = NegBatch(pre, [(l, f"fn n{n}() {{ {g} }}\n") for n, (l, g) in enumerate(negs)])
        bad, odd, single = nb.accepted(lib, os.path.join(d, "neg"))
        with lock:
            for j, p, s2 in bad:
                v.violate(f"[auto-trait world {k} seed {seed}] {nb.items[j][0]}", f"{' '.join(lib.cmd(p, '/dev/null', emit='metadata'))}\n\n{s2}")
            for j, e in odd:
                v.inconclusive.append(f"{nb.items[j][0]}: {e}")
            v.evaluations += len(negs) + pos.count(";")
            tot["autotrait_worlds"] += 1
            tot["forbidden_programs"] += len(negs)
            tot["sound_twins"] += 1
            tot["forbidden_compiled_singly"] += single
            byclass["auto-traits"] = byclass.get("auto-traits", 0) + len(negs)
            distinct.update((name, shape, l) for l, _ in negs)

    def expand_job(k):
        if v.violations:
            return
        lib = night[k % 2]
        kind = k // 2 % 4
        flags = []
        if kind in (0, 1):
            pr = c05.Program(f"x{seed}", k, "wide" if k % 5 == 4 else False, 6, 32 if lib.features else 16)
            text = pr.text()
        elif kind == 2:
            rng = random.Random(f"c18e-{seed}-{k}")
            ds = [x for x in (c15.Decl(rng) for _ in range(4)) if x.archs]
            text = c15.PRELUDE + "".join(c15.check_mod(j, x, rng) for j, x in enumerate(ds)) + "fn main() {}\n"
            flags = ["gp_on"]
        else:
            pr = c16.Prog(f"x{seed}", k)
            m = next((m for m in range(1 << pr.nf) if pr.view(m)), None)
            if m is None:
                return
            w = pr.view(m)
            flags = c16.flag_args(m, c16.FLAGS[: pr.nf]) + [f"q{q}_{j}" for q, ps in enumerate(pr.queries) if pr.qview(ps, w, m)[0] == "ok" for j in range(5)]
            text = pr.text()
        text = "#![forbid(unsafe_code)]\n" + text.replace("pub static mut FAILS: u32 = 0;\n", "")
        d = os.path.join(d0, f"exp-{k}")
        os.makedirs(d)
        p = write(os.path.join(d, "main.rs"), text)
        c = lib.cmd(p, os.path.join(d, "out.rs"), flags, extra=["-Zunpretty=expanded"])
        r = call(c)
        rc_ = call(lib.cmd(p, os.path.join(d, "o.rmeta"), flags, emit="metadata"))
        with lock:
            if r.rc != 0 or r.odd:
                v.soft.append(f"expansion {k} failed: {first_errors(r.err, 2)}")
                return
            out = open(os.path.join(d, "out.rs")).read() if os.path.exists(os.path.join(d, "out.rs")) else r.out
            found = unsafe_tokens(out)
            if found:
                # still there when the same program has no gecs macro? (then it is not the generators')
                v.violate(f"[expansion {k} seed {seed}] the expansion contains `{found[0][0]}`: ...{' '.join(found[0][1].split())[:250]}...", f"{' '.join(c)}\n\n" + "\n---\n".join(x for _, x in found[:20]) + "\n\n" + text)
                return
            if rc_.rc == 1 and re.search(r"unsafe", first_errors(rc_.err, 50)):
                v.violate(f"[expansion {k} seed {seed}] rejected under forbid(unsafe_code): {first_errors(rc_.err, 2)}", f"{' '.join(c)}\n\n{rc_.err[-5000:]}\n\n{text}")
                return
            if rc_.rc != 0:
                v.soft.append(f"expansion {k}: does not compile: {first_errors(rc_.err, 2)}")
                return
            n = len(re.findall(r"\w+|[^\w\s]", out))
            tot["expansions_scanned"] += 1
            tot["tokens_scanned"] += n
            v.evaluations += 2
            distinct.add(("expansion", hashlib.sha256(strip_tokens(out).encode()).hexdigest()))
            if len(v.samples) < 4:
                v.samples.append(f"expansion {k}: {n} tokens, features {lib.features}")
        shutil.rmtree(d, ignore_errors=True)

    shapes = [(stable[0], 1, 0), (stable[1], 2, 1), (stable[0], 3, 0), (stable[1], 17, 16)]
    if thorough:
        shapes += [(stable[0], a, p) for a in range(1, 17) for p in sorted({0, a - 1, a // 2})] + [(stable[1], a, p) for a in range(1, 33, 2) for p in sorted({0, a - 1, a // 2})]
    na, ne = (4000, 2000) if thorough else (96, 64)
    jobs = [("s", s) for s in shapes[:4]]
    for k in range(max(na, ne)):
        if k < ne:
            jobs.append(("e", k))
        if k < na:
            jobs.append(("a", k))
        if k < len(shapes) - 4:
            jobs.append(("s", shapes[4 + k]))
    pmap(lambda j: {"s": shape_job, "e": expand_job, "a": auto_job}[j[0]](j[1]), jobs, deadline=deadline)
    if not tot["expansions_scanned"] and not v.violations:
        v.inconclusive += v.soft[:4] or ["no expansion scanned"]
    v.distinct = len(distinct)
    v.samples += [f"{c}: {n} forbidden programs" for c, n in sorted(byclass.items())]
    v.samples += [f"{c}: {l}" for c, l in sorted(x for x in distinct if len(x) == 2 and x[0] != 'expansion')[::200]]
    if not v.violations:
        shutil.rmtree(d0, ignore_errors=True)
    v.stats.update(tot)
    return v.finish("exploration", "An evaluation is one compile verdict (a forbidden program, its sound twin, an auto-trait assertion) or one expansion scanned for unsafe tokens. "
                    "A distinct situation is a forbidden program class and label, an auto-trait claim in a world shape, or an expansion with new tokens.",
                    ["The forbidden programs in vlib/c18.py would be unsound if accepted.", "rustc's borrow checker and auto-trait inference are correct.", "-Zunpretty=expanded prints what the macros produced."])
