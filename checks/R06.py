"""R06: Rust archives open exactly if all mandatory resources are intact; builders."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *

SCHEMA = """namespace n { struct S { a : u16 : 11; } struct F { pad : u8 : 3; v : u8 : 2; ov : u8 : 1; m : u16 : 2; om : u8 : 1; d : u8 : 3; od : u8 : 1; }
 archive Sub { x : S; @optional y : vector< S >; }
 archive Arc {
  i : S; @optional oi : S;
  v : vector< S >; @optional ov : vector< S >;
  @explicit_reference( F.v, v ) @explicit_reference( F.ov, ov ) @explicit_reference( F.m, m ) @explicit_reference( F.om, om )
  @explicit_reference( F.d, d ) @explicit_reference( F.od, od )
  f : vector< F >;
  m : multivector< 9, S >; @optional om : multivector< 9, S >;
  d : raw_data; @optional od : raw_data;
  sub : archive Sub; @optional osub : archive Sub;
 } }"""
LIMIT = {"v": 4, "ov": 2, "m": 4, "om": 2, "d": 8, "od": 2}
ELEM = {"v": 2, "ov": 2, "f": 2, "d": 1, "od": 1, "i": 2, "oi": 2}
SIMPLE = ["i", "oi", "v", "ov", "f", "m", "om", "d", "od"]
OPT = {"oi", "ov", "om", "od", "osub"}

VIEW = {"i": "x as *const _ as u64, 2", "v": "x.as_ptr() as u64, x.len() as u64", "f": "x.as_ptr() as u64, x.len() as u64", "m": "0, x.len() as u64",
        "d": "x.as_bytes().as_ptr() as u64, x.as_bytes().len() as u64"}
SUB = "out(o, &[x.x().as_bytes().as_ptr() as u64, 2, match x.y() { Some(y) => y.len() as u64, None => 99 }])"
BODY = STORAGE + '''
unsafe fn s_of(p: *const u8) -> &'static n::S { n::S::from_bytes_slice(std::slice::from_raw_parts(p, 2)).unwrap() }
unsafe fn ss(p: *const u8, k: u64) -> &'static [n::S] { <&'static [n::S]>::from_bytes(std::slice::from_raw_parts(p, 2 * k as usize)).unwrap() }
unsafe fn ff(p: *const u8, k: u64) -> &'static [n::F] { <&'static [n::F]>::from_bytes(std::slice::from_raw_parts(p, 2 * k as usize)).unwrap() }
unsafe fn done(r: std::io::Result<()>) -> u64 { r.is_ok() as u64 }
api!(a_open(s: *const St) { match n::Arc::open(handle(&*s)) { Ok(a) => Box::into_raw(Box::new(a)) as u64, Err(e) => code(&e) } });
api!(a_clone(a: *const n::Arc) { let a = &*a; Box::into_raw(Box::new(a.clone())) as u64 });
api!(a_drop(a: *mut n::Arc) { drop(Box::from_raw(a)); 0 });
api!(s_drop(s: *mut St) { drop(Box::from_raw(s)); 0 });
api!(sch_arc(o: *mut u64) { let t = n::schema::arc::ARC; out(o, &[t.as_ptr() as u64, t.len() as u64]) });
api!(sch_sub(o: *mut u64) { let t = n::schema::sub::SUB; out(o, &[t.as_ptr() as u64, t.len() as u64]) });
api!(rs_x(o: *mut u64) { let t = n::schema::sub::resources::X; out(o, &[t.as_ptr() as u64, t.len() as u64]) });
api!(rs_y(o: *mut u64) { let t = n::schema::sub::resources::Y; out(o, &[t.as_ptr() as u64, t.len() as u64]) });
''' + "".join('''
api!(rs_%(r)s(o: *mut u64) { let t = n::schema::arc::resources::%(R)s; out(o, &[t.as_ptr() as u64, t.len() as u64]) });
''' % dict(r=r, R=r.upper()) for r in SIMPLE) + "".join('''
api!(get_%(r)s(a: *const n::Arc, o: *mut u64) { let a = &*a; let x = a.%(r)s(); %(g)s });
''' % dict(r=r, g=("match x { Some(x) => %s, None => 0 }" if r in OPT else "%s") % (SUB if "sub" in r else "out(o, &[%s])" % VIEW[r[-1]]))
    for r in SIMPLE + ["sub", "osub"]) + '''
type B = n::ArcBuilder;
api!(b_open(s: *const St) { match B::new(handle(&*s)) { Ok(b) => Box::into_raw(Box::new(b)) as u64, Err(e) => code(&e) } });
api!(set_i(b: *const B, p: *const u8) { let b = &*b; done(b.set_i(s_of(p))) });
api!(set_oi(b: *const B, p: *const u8) { let b = &*b; done(b.set_oi(s_of(p))) });
api!(set_d(b: *const B, p: *const u8, k: u64) { let b = &*b; done(b.set_d(bytes(p, k))) });
api!(set_od(b: *const B, p: *const u8, k: u64) { let b = &*b; done(b.set_od(bytes(p, k))) });
api!(set_v(b: *const B, p: *const u8, k: u64) { let b = &*b; done(b.set_v(ss(p, k))) });
api!(set_ov(b: *const B, p: *const u8, k: u64) { let b = &*b; done(b.set_ov(ss(p, k))) });
api!(set_f(b: *const B, p: *const u8, k: u64) { let b = &*b; done(b.set_f(ff(p, k))) });
api!(start_v(b: *const B, p: *const u8, k: u64) { let b = &*b; let mut v = b.start_v().unwrap(); for s in ss(p, k) { v.grow().unwrap().fill_from(s); }
  v.close().is_ok() as u64 });
api!(start_m(b: *const B, p: *const u8, k: u64) { let b = &*b; let mut v = b.start_m().unwrap(); for s in ss(p, k) { v.grow().unwrap().add_s().fill_from(s); }
  v.close().is_ok() as u64 });
api!(sub_(b: *const B) { let b = &*b; match b.sub() { Ok(x) => Box::into_raw(Box::new(x)) as u64, Err(e) => code(&e) } });
api!(osub_(b: *const B) { let b = &*b; match b.osub() { Ok(x) => Box::into_raw(Box::new(x)) as u64, Err(e) => code(&e) } });
api!(sub_x(b: *const n::SubBuilder, p: *const u8) { let b = &*b; done(b.set_x(s_of(p))) });
api!(sub_y(b: *const n::SubBuilder, p: *const u8, k: u64) { let b = &*b; done(b.set_y(ss(p, k))) });
'''


def text(c, fn):
    out = c.buf(16)
    c.call(fn, out)
    return [int(x) for x in c.read(u64(c, out, 0), int(u64(c, out, 1)))]


def framed(c, s, key, payload, schema, defect=0):
    """defect: 0 intact, 1 absent, 2 schema differs, 3 size differs, 4 no schema, 5 too short"""
    if defect != 1:
        data = le(len(payload) + (defect == 3), 8) + list(payload) + [0] * 8
        put(c, s, key, data[:12] if defect == 5 else data)
        if defect != 4:
            sch = list(schema)
            if defect == 2:
                sch[len(sch) // 2] ^= 1
            put(c, s, key + b".schema", sch)


def fill(c, s, states, counts):
    """stores every resource; states: name -> defect"""
    sch = lambda r: text(c, "rs_" + r)
    framed(c, s, b"Arc.archive", [], text(c, "sch_arc"), states.get("signature", 0))
    for r in SIMPLE:
        k = counts.get(r, 1)
        if r in ("m", "om"):
            data = [b for j in range(k) for b in (0, j, 1)]
            index = [b for j in range(k + 1) for b in le(3 * j, 2)]
            st = states.get(r, 0)
            framed(c, s, r.encode(), data, sch(r), 1 if st == 21 else st if st < 10 else 0)
            framed(c, s, r.encode() + b"_index", index, [ord(x) for x in "index("] + sch(r) + [41], 1 if st == 21 else st - 10 if st > 10 else 0)
        else:
            framed(c, s, r.encode(), [7] * (k * ELEM[r]), sch(r), states.get(r, 0))
    for r in ("sub", "osub"):
        st = states.get(r, 0)
        if st == 1:
            continue
        framed(c, s, r.encode() + b"/Sub.archive", [], text(c, "sch_sub"), st - 40 if st >= 40 else 0)
        framed(c, s, r.encode() + b"/x", [1, 2], text(c, "rs_x"), st - 10 if 10 <= st < 20 else 0)
        framed(c, s, r.encode() + b"/y", [1, 2, 3, 4], text(c, "rs_y"), st - 20 if 20 <= st < 30 else 0)


def states_of(r):
    if r in ("m", "om"):
        return [0, 21, 1, 2, 3, 4, 5, 11, 12, 13, 14, 15]
    if r in ("sub", "osub"):
        return [0, 1, 41, 42, 43, 44, 45, 11, 12, 13, 21, 22, 23]
    return [0, 1, 2, 3, 4, 5]


WHY = {1: 11, 2: 13, 3: 12, 4: 15, 5: 12}


def outcome(r, st):
    """0: intact, 1: absent, else number of the error"""
    if st == 0:
        return 0
    if r in ("m", "om"):
        return 1 if st == 21 else WHY[st % 10]
    if r in ("sub", "osub"):
        if st in (1, 41):
            return 1
        return 0 if st == 21 else WHY[st % 10]
    return 1 if st == 1 else WHY[st]


def opening(unit, vary, most):
    """each resource of `vary` in any state with any number of items; all others intact"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        states, counts = {}, {}
        for r in vary:
            opts = states_of(r)
            states[r] = opts[env.int_in("state_" + r, 0, min(len(opts) - 1, most)).__index__()]
            if r in LIMIT and states[r] == 0:
                counts[r] = env.int_in("count_" + r, 0, LIMIT[r] + 1).__index__()
        fill(c, s, states, counts)
        a = c.call("a_open", s)
        wrong, gone = [], set()
        for r in SIMPLE + ["signature", "sub", "osub"]:
            o = outcome(r, states.get(r, 0))
            if o == 1 and r in OPT:
                gone.add(r)
            elif o == 1:
                wrong.append(10 if r == "signature" else 11)
            elif o:
                wrong.append(o)
            elif counts.get(r, 1) > LIMIT.get(r, 1 << 70):
                wrong.append(16)
        env.observe("open", a if a < 100 else 0)
        env.prove((a > 100) == (not wrong), "the archive opens exactly if its resources are intact or optional and absent, and within limits")
        if wrong:
            if len(wrong) == 1:
                env.prove(a == wrong[0], "the error names the reason")
            c.close()
            return
        b = c.call("a_clone", a)
        out = c.buf(24)
        keep = {}
        for r in SIMPLE:
            if r not in gone and r not in ("m", "om"):
                c.call("raw", s, *K(c, r.encode()), out)
                keep[r] = u64(c, out, 0) + 8
        c.call("s_drop", s)
        for a, last in ((a, False), (b, True)):
            for r in SIMPLE + ["sub", "osub"]:
                got = c.call("get_" + r, a, out)
                env.prove(got == (0 if r in gone else 1), "%s is available exactly if it is there" % r)
                if got and r in SIMPLE:
                    k = counts.get(r, 1)
                    env.prove(u64(c, out, 1) == (2 if r in ("i", "oi") else k), "size of %s" % r)
                    if r in keep:
                        env.prove(u64(c, out, 0) == keep[r], "data of %s" % r)
                        env.prove(same(env, c.read(keep[r], k * ELEM[r]), [7] * (k * ELEM[r])), "content of %s" % r)
                elif got:
                    env.prove(u64(c, out, 2) == (99 if states.get(r, 0) == 21 else 2), "optional resource of %s" % r)
                    env.prove(same(env, c.read(u64(c, out, 0), 2), [1, 2]), "instance of %s" % r)
            if not last:
                c.call("a_drop", a)
        c.close()
    return scenario


def building(unit, k):
    """an archive written by its builder opens and holds the data; with resources left out it does not open"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        b = c.call("b_open", s)
        env.prove(b > 100, "a builder creates an archive")
        data = env.bytes("data", 2 * k + 8)
        p = c.buf(data)
        skip = env.int_in("skip", 0, 13).__index__()
        incremental = env.boolean("incremental")
        steps = [("set_i", (p,)), ("start_v" if incremental else "set_v", (p, k)), ("set_f", (p, k)),
                 ("start_m", (p, k)), ("set_d", (p, 2 * k)), ("set_oi", (p,)), ("set_ov", (p, min(k, 2))),
                 ("set_od", (p, min(2 * k, 2)))]
        for j, (fn, args) in enumerate(steps):
            if j != skip:
                env.prove(c.call(fn, b, *args) == 1, "%s succeeds" % fn)
        for j, fn in ((8, "sub_"), (9, "osub_")):
            if j == skip:
                continue
            sub = c.call(fn, b)
            env.prove(sub > 100, "a subarchive is created")
            if skip != j + 2:
                env.prove(c.call("sub_x", sub, p) == 1, "writing into a subarchive succeeds")
            env.prove(c.call("sub_y", sub, p, k) == 1, "writing into a subarchive succeeds")
            env.prove(c.call(fn, b) == 15, "a subarchive is not created again")
        a = c.call("a_open", s)
        want = skip not in (0, 1, 2, 3, 4, 8, 10, 11)
        env.observe("open", a if a < 100 else 0)
        env.prove((a > 100) == want, "the archive built opens exactly if nothing mandatory was left out")
        out = c.buf(24)
        if want:
            for j, r, n, sz in ((0, "i", 2, 2), (1, "v", 2 * k, k), (2, "f", 2 * k, k), (4, "d", 2 * k, 2 * k), (5, "oi", 2, 2),
                                (6, "ov", 2 * min(k, 2), min(k, 2)), (7, "od", min(2 * k, 2), min(2 * k, 2))):
                got = c.call("get_" + r, a, out)
                env.prove(got == int(j != skip), "%s is there exactly if written" % r)
                if got:
                    env.prove(u64(c, out, 1) == sz, "size of %s" % r)
                    want = [x & 7 if i % 2 and r == "v" and incremental else x for i, x in enumerate(data[:n])]    # field by field
                    env.prove(same(env, c.read(u64(c, out, 0), n), want) if n else True, "content of %s" % r)
            env.prove(c.call("get_m", a, out) == 1, "the multivector is there")
            env.prove(u64(c, out, 1) == k, "size of the multivector")
            env.prove(c.call("get_om", a, out) == 0, "what was not written is absent")
            for j, r in ((8, "sub"), (9, "osub")):
                got = c.call("get_" + r, a, out)
                env.prove(got == int(skip != j), "%s is there exactly if written" % r)
                if got:
                    env.prove(same(env, c.read(u64(c, out, 0), 2), data[:2]), "content of %s" % r)
                    env.prove(u64(c, out, 2) == k, "vector of %s" % r)
        c.close()
    return scenario


def reopening(unit):
    """builders refuse existing archives, and leave them as they are"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        state = env.int_in("signature", 0, 6).__index__()
        other = env.bytes("other", 3)
        if bool(env.boolean("near")):              # resources of similar names do not matter
            for name in (b"Arc", b"Arc.schema", b"arc.archive", b"Arc.archive.", b"archive", b".archive"):
                put(c, s, name, [2] * 20)
        if state == 6:
            put(c, s, b"Ar.archive", [1] * 20)
            put(c, s, b"sub/Arc.archive", [1] * 20)
        elif state:
            framed(c, s, b"Arc.archive", other, other, state)
        else:
            env.prove(c.call("b_open", s) > 100, "a builder creates an archive")
        b = c.call("b_open", s)
        env.observe("open", b if b < 100 else 0)
        env.prove((b > 100) == (state in (1, 6)), "a builder creates new archives only")
        out = c.buf(16)
        if state in (1, 6):
            stored(env, c, s, b"Arc.archive", [], text(c, "sch_arc"), "signature")
        elif state:
            env.prove(b == 15, "an existing archive is reported")
            want = le(3 + (state == 3), 8) + list(other) + [0] * 8
            c.call("raw", s, *K(c, b"Arc.archive"), out)
            env.prove(u64(c, out, 1) == (12 if state == 5 else 19), "the signature stays")
            env.prove(same(env, c.read(u64(c, out, 0), 12), want[:12]), "the signature stays as it was")
        c.close()
    return scenario


def build():
    u = RustUnit("R06", "arc", SCHEMA, BODY)
    build_rust([u])
    hs = []
    B = "an archive with every kind of resource, mandatory and optional, limited and not; "
    for i, pair in enumerate([("signature", "osub"), ("i", "oi"), ("v", "ov"), ("f", "sub"), ("m", "om"), ("d", "od"), ("sub", "osub"), ("i", "signature"),
                              ("v", "d"), ("oi", "osub"), ("f", "om"), ("m", "od")]):
        hs.append(PyHarness("open/%s" % "_".join(pair), opening(u, pair, 99), [], B + "two resources in any of 6 to 13 states and sizes around the limit",
                            validate=3, weight=10))
    for i, trip in enumerate([("signature", "i", "v", "f"), ("d", "m", "sub", "oi"), ("ov", "om", "od", "osub")]):
        hs.append(PyHarness("several/%d" % i, opening(u, trip, tier(1, 2)), [], B + "four resources present or not, sizes around the limit", validate=3, weight=20))
    hs.append(PyHarness("reopen", reopening(u), [], B + "new and existing archives", validate=4))
    for k in tier((0, 1, 3), (0, 1, 2, 3, 4)):
        hs.append(PyHarness("build/%d" % k, building(u, k), [], B + "every content of 0..3 (4) items, any one resource left out", validate=4, weight=10))
    return hs


if __name__ == "__main__":
    main("R06", both(build), RUST_ASSUME + ["instances whose resource is shorter or longer than the structure are left out (the expected generator output pins an assertion)"],
         ["file and tar storages", "Debug output", "archives larger than the bounds"])
