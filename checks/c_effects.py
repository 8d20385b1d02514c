"""Effect, resource and error-path rules over the resolved call graph and the MIR control-flow graphs."""
IDS = ["P07", "P08", "P09", "P10", "P12", "P13", "P14", "P15", "P25"]
import json, os, re
import mir, paths
from value import pretty

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "tables", "effects.json")
FSMUT = re.compile(r"^std::(fs|os::unix::fs)::(write|create_dir|create_dir_all|remove_\w+|rename|copy|set_permissions|hard_link|"
                   r"symlink\w*|soft_link|File::create\w*|File::set_len|OpenOptions::open|DirBuilder::create)$")
EFFECTS = {"write": FSMUT,
           "proc": re.compile(r"^std::(process::Command::(new|spawn|output|status)|os::unix::process::CommandExt::exec)$"),
           "net": re.compile(r"^reqwest::.*(::send|::execute|blocking::get)$|^std::net::|^<std::net::|^ureq::|^tokio::net"),
           "env": re.compile(r"^std::env::(set_var|remove_var|set_current_dir)$")}
TIME = re.compile(r"^std::time::(SystemTime|Instant)::(now|elapsed)$|^chrono::.*::now$")
RAND = re.compile(r"uuid::.*new_v[1-9]|^rand::|^getrandom::|^fastrand::|RandomState::(new|build_hasher|hash_one)|^std::process::id$|"
                  r"^std::thread::current|^std::env::(var|vars|var_os|vars_os|current_dir|current_exe|args)$|^core::fmt::Pointer|new_pointer$")
HASHTY = ("std::collections::HashMap<", "std::collections::HashSet<", "std::collections::hash_map::", "std::collections::hash_set::")


def ext(n):
    return n or ""


def name(c, b, t):
    return c.P.callee_id(b, t) or ""


def ordered_bodies(c):
    return sorted(c.P.bodies.values(), key=lambda b: (b.file, b.line, b.id))


def strip(ty, b):
    while ty["k"] == "ref":
        ty = b.ty(ty["a"][0])
    return ty


def owner(b, P):
    """the named function a closure belongs to"""
    while b.kind == "closure" and b.parent and b.parent in P.bodies:
        b = P.bodies[b.parent]
    return b


def consts(b):
    """string constants appearing in a body"""
    out = []

    def w(o):
        if isinstance(o, dict):
            if isinstance(o.get("str"), str):
                out.append(o["str"])
            if isinstance(o.get("bytes"), list):
                out.append(bytes(x & 255 for x in o["bytes"]).decode("utf-8", "replace"))
            for v in o.values():
                w(v)
        elif isinstance(o, list):
            for v in o:
                w(v)
    if "consts" not in b.cache:
        w(b.blocks)
        b.cache["consts"] = out
    return b.cache["consts"]


def adt_of(c, b, tyidx):
    ty = strip(b.ty(tyidx), b)
    return c.P.adts.get("ppt_rs", {}).get(c.P.resolve_id(b.crate, ty["d"])) if ty["k"] == "adt" else None


def guards(c):
    """ADTs whose Drop removes files: name -> drop body"""
    out = {}
    for b in c.P.bodies.values():
        if b.trait == "core::ops::drop::Drop" and b.selfty is not None:
            seen = c.P.reachable([b.id])
            if any(re.search(r"^std::fs::remove_", n or "") for n in seen):
                out[c.P.resolve_id(b.crate, b.ty(b.selfty).get("d"))] = b
    return out


def returns_adt(c, b, names):
    s = b.lty(0)
    seen, st = set(), [s]
    while st:
        t = st.pop()
        if t["k"] == "adt" and c.P.resolve_id(b.crate, t["d"]) in names:
            return True
        for a in t.get("a", []) or []:
            if isinstance(a, int) and a not in seen:
                seen.add(a)
                st.append(b.ty(a))
    return False


# ------------------------------------------------------------------------------------------------ P07 determinism
def p07(c):
    P = c.P
    gd = set(guards(c))
    img = {n for n in P.adts["ppt_rs"] if n.endswith("::Image") or n.endswith("::ImageBuilder")}
    timed = set()
    for n, a in P.adts["ppt_rs"].items():
        for v in a["v"]:
            for f in v["f"]:
                if "std::time::Duration" in P.types["ppt_rs"][f[1]]["s"]:
                    timed.add(n)
    coreprops = set()
    for b in P.bodies.values():
        if any("<cp:coreProperties" in s for s in consts(b)):
            coreprops.add(owner(b, P).id)
    cptypes = {P.resolve_id(P.bodies[i].crate, P.bodies[i].ty(P.bodies[i].selfty).get("d")) for i in coreprops
               if P.bodies[i].selfty is not None}

    def barrier(b, kind):
        if b.kind == "closure":
            return False
        if b.crate != "ppt_rs" or b.file.startswith(("src/cli/", "src/bin/")):
            return True
        if returns_adt(c, b, gd):
            return True
        if kind == "time":
            if b.id in coreprops or returns_adt(c, b, cptypes) or returns_adt(c, b, timed):
                return True
            if b.selfty is not None and P.resolve_id(b.crate, strip(b.ty(b.selfty), b).get("d") or "") in cptypes:
                return True
        if kind == "rand" and returns_adt(c, b, img):
            return True
        return False
    callers = P.callers()
    nsrc = 0
    for b in ordered_bodies(c):
        for k, n, line in P.edges(b.id):
            if n in P.bodies or not n:
                continue
            kind = "time" if TIME.search(n) else "rand" if RAND.search(n) else None
            if not kind:
                continue
            nsrc += 1
            bad = []
            seen, st = {b.id: None}, [b.id]
            while st:
                x = st.pop()
                xb = P.bodies[x]
                if barrier(xb, kind):
                    continue
                cs = [i for i, l in callers.get(x, ()) if i in P.bodies]
                if xb.kind == "closure" and not cs and xb.parent in P.bodies:
                    cs = [xb.parent]
                if not cs or (xb.pub and xb.kind != "closure"):
                    bad.append(x)
                    continue
                for i in cs:
                    if i not in seen:
                        seen[i] = x
                        st.append(i)
            for x in sorted(bad)[:1]:
                p = [x]
                while seen[p[-1]] is not None:
                    p.append(seen[p[-1]])
                c.violate("source|%s|%s" % (n.split("::")[-1], owner(b, P).id), "%s makes output of %s differ from run to run" % (n, x),
                          "%s:%s in %s" % (b.file, line, b.id), p)
    c.floor("time_and_random_sources_checked", nsrc, 4)
    niter = hash_iteration(c)
    c.coverage["hash_iterations_checked"] = niter
    c.floor("functions_scanned", len(P.bodies), 2000)
    c.explanation = ("call-graph containment of clock, random, environment and address sources behind the document-timestamp producer, image "
                     "construction, timing reports and temp-file names; every iteration over a HashMap/HashSet must end in an order-insensitive "
                     "consumer or be sorted before use")
    c.coverage["rule"] = "no source of run-to-run variation reaches generated output outside the document timestamps and new image names"


INSENS = {"any", "all", "count", "sum", "product", "min", "max", "len", "is_empty", "contains", "contains_key", "size_hint", "drop"}
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "chain", "inspect", "by_ref", "into_iter", "iter",
         "peekable", "map_while", "fuse", "as_ref", "clone", "enumerate", "rev", "zip"}
ORDERLESS = re.compile(r"^(&mut |&)?(std::collections::(BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap)<|usize|u\d|i\d|bool|f64|f32)")
SORT = re.compile(r"::sort\w*$|::sorted\w*$")


def hash_iteration(c):
    P = c.P
    n = 0
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            nm = mir.callee(t) or ""
            s = nm.split("::")[-1]
            k = mir.fninfo(t)
            a0 = ""
            if t[3]:
                p = t[3][0].get("c") or t[3][0].get("m")
                if p:
                    a0 = strip(b.lty(p[0]), b)["s"] if not p[1] else ""
            tys = [b.ty(a)["s"] for a in (k or {}).get("a", [])]
            if re.search(r"collections::hash::(map|set)::Hash(Map|Set)", nm) and s in (
                    "iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "extract_if",
                    "union", "intersection", "difference", "symmetric_difference"):
                pass
            elif s == "into_iter" and (a0.startswith(("std::collections::HashMap<", "std::collections::HashSet<"))):
                pass
            elif s == "extend" and len(tys) > 1 and any(x.lstrip("&").startswith(HASHTY) for x in tys[1:]) and not ORDERLESS.search(tys[0]):
                c.violate("hash-order|%s|extend" % owner(b, P).id, "extends an ordered collection in hash order",
                          "%s:%s in %s" % (b.file, t[0], b.id))
                n += 1
                continue
            elif s == "new_debug" and any(x.lstrip("&").startswith(HASHTY) for x in tys):
                if b.trait != "core::fmt::Debug":
                    c.violate("hash-order|%s|debug" % owner(b, P).id, "formats a hash map in hash order", "%s:%s in %s" % (b.file, t[0], b.id))
                n += 1
                continue
            else:
                continue
            n += 1
            why = order_use(c, b, bi)
            if why:
                c.violate("hash-order|%s|%s" % (owner(b, P).id, why.split()[0]), "result depends on hash iteration order: %s" % why,
                          "%s:%s in %s" % (b.file, t[0], b.id))
    return n


def order_use(c, b, bi):
    """None when the iterator created by the call ending bi is consumed independently of its order, else the reason"""
    t = b.blocks[bi]["t"]
    if t[4][1]:
        return "stored"
    u = paths.uses(b)
    seen, st = set(), [t[4][0]]
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return "returned unsorted"
        for kind, blk, info in u.get(l, ()):
            if kind in ("copy", "ref"):
                if info[1]:
                    return "stored"
                st.append(info[0])
            elif kind == "drop":
                continue
            elif kind == "arg":
                ct = b.blocks[blk]["t"]
                n = mir.callee(ct) or ""
                s = n.split("::")[-1]
                if s in INSENS:
                    continue
                if s in ADAPT:
                    if not ct[4][1]:
                        st.append(ct[4][0])
                    continue
                if s in ("collect", "from_iter", "extend", "partition"):
                    if s == "extend":
                        o = ct[3][0].get("c") or ct[3][0].get("m")
                        dl, dty = base_of(b, o[0]), strip(b.lty(o[0]), b)["s"]
                    else:
                        dl, dty = ct[4][0], b.lty(ct[4][0])["s"]
                    if ORDERLESS.search(dty):
                        continue
                    w = unsorted_use(b, dl, blk)
                    if w:
                        return w
                    continue
                if s == "next":
                    w = loop_effects(b, blk)
                    if w:
                        return w
                    continue
                return "consumed by %s" % s
            elif kind == "agg":
                return "stored"
            else:
                continue
    return None


def base_of(b, l):
    """local a chain of reborrows starting at l refers to"""
    for _ in range(8):
        nx = None
        for blk in b.blocks:
            for s in blk["s"]:
                if s[1] and s[1][0] == l and not s[1][1] and isinstance(s[2], list):
                    if s[2][0] == "ref":
                        nx = s[2][2][0]
                    elif s[2][0] == "use":
                        p = s[2][1].get("c") or s[2][1].get("m")
                        nx = p[0] if p else None
        if nx is None or nx == l:
            return l
        l = nx
    return l


def unsorted_use(b, l, from_blk):
    """is the ordered collection in local l used (other than by sorting it) before it is sorted?"""
    u = paths.uses(b)
    sorts, others = set(), []
    seen, st = set(), [l]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            others.append((from_blk, "returned"))
        for kind, blk, info in u.get(x, ()):
            if kind in ("copy", "ref", "proj") and isinstance(info, list) and not info[1]:
                if kind != "proj" or b.lty(info[0])["k"] == "ref":
                    st.append(info[0])
                else:
                    others.append((blk, kind))
            elif kind == "drop":
                continue
            elif kind == "arg":
                s = (mir.callee(b.blocks[blk]["t"]) or "").split("::")[-1]
                if SORT.search("::" + s):
                    sorts.add(blk)
                elif s in ("deref_mut", "deref", "as_mut_slice", "as_mut") and blk != from_blk:
                    if not b.blocks[blk]["t"][4][1]:
                        st.append(b.blocks[blk]["t"][4][0])
                elif s in ("push", "extend", "extend_from_slice", "len", "is_empty", "append", "insert", "reserve"):
                    continue
                elif blk != from_blk:
                    others.append((blk, s))
            elif kind in ("agg", "proj"):
                others.append((blk, kind))
    for blk, s in others:
        if not any(b.dominates(x, blk) for x in sorts):
            return "collected unsorted (%s)" % s
    return None


def loop_blocks(b, blk):
    """blocks on a cycle through blk"""
    fw, st = set(), list(b.succ(blk))
    while st:
        x = st.pop()
        if x not in fw:
            fw.add(x)
            st.extend(b.succ(x))
    bw, st = set(), list(b.pred(blk))
    while st:
        x = st.pop()
        if x not in bw:
            bw.add(x)
            st.extend(b.pred(x))
    return fw & bw


PURE = {"next", "clone", "deref", "as_str", "as_ref", "eq", "ne", "lt", "gt", "le", "ge", "starts_with", "ends_with", "contains", "contains_key",
        "to_string", "into", "from", "len", "is_empty", "get", "format", "borrow", "to_owned", "as_bytes", "new", "into_iter", "cmp", "must_use"}


def loop_effects(b, blk):
    loop = loop_blocks(b, blk)
    if not loop:
        return "consumed by next"
    for x in sorted(loop):
        t = b.blocks[x]["t"]
        if t[1] != "call" or b.blocks[x].get("cl"):
            continue
        n = mir.callee(t) or ""
        s = n.split("::")[-1]
        for a in t[3]:
            p = a.get("c") or a.get("m")
            if not p:
                continue
            ty = b.lty(p[0])
            if ty["k"] == "ref" and ty.get("m") and s != "next" and not p[1]:
                base = base_of(b, p[0])
                bs = strip(b.lty(base), b)["s"]
                # locals created inside the loop are per-element
                if defined_in(b, base, loop) and base > b.argc:
                    continue
                if ORDERLESS.search(bs):
                    continue
                if bs.startswith("std::vec::Vec<"):
                    w = unsorted_use_after(b, base, loop)
                    if w:
                        return "pushed in loop (%s)" % w
                    continue
                return "%s in loop" % s
    return None


def defined_in(b, l, loop):
    for x in range(len(b.blocks)):
        blk = b.blocks[x]
        if blk.get("cl"):
            continue
        for s in blk["s"]:
            if s[1] and s[1][0] == l and not s[1][1] and x not in loop:
                return False
        t = blk["t"]
        if t[1] == "call" and t[4][0] == l and not t[4][1] and x not in loop:
            return False
    return True


def unsorted_use_after(b, l, loop):
    return unsorted_use(b, l, min(loop))


# ------------------------------------------------------------------------------------------------ P08 effects
def p08(c):
    P = c.P
    T = json.load(open(TABLE))
    known = set(T["functions"])
    n = 0
    fx = {}
    for b in P.bodies.values():
        for k, m, line in P.edges(b.id):
            if m and m not in P.bodies:
                for e, r in EFFECTS.items():
                    if r.search(m):
                        fx.setdefault(e, {})[b.id] = (m, line)
    # reverse reachability from every effectful body, remembering one path
    callers = P.callers()
    for e, src in fx.items():
        seen, st = {s: None for s in src}, sorted(src)
        while st:
            x = st.pop(0)
            for i, l in sorted(callers.get(x, ())):
                if i in P.bodies and i not in seen:
                    seen[i] = x
                    st.append(i)
        for f in sorted(set(seen) & known):
            if f in T[e]:
                continue
            p = [f]
            while seen[p[-1]] is not None:
                p.append(seen[p[-1]])
            m, line = src[p[-1]]
            c.violate("effect|%s|%s" % (e, f), "%s now performs %s" % (f, m), P.bodies[f].where(), p + [m])
    n = len(known & set(P.bodies))
    c.floor("public_functions_checked", n, int(len(known) * 0.6))
    c.coverage["effect_sites"] = {e: len(v) for e, v in fx.items()}
    c.explanation = ("reverse reachability over the resolved call graph from every file-system mutation, process launch, network request and "
                     "environment change to the public functions; each public function may only have the effects declared for it")
    c.coverage["rule"] = "deny by default: a public function has only the effects declared for it in lib/tables/effects.json"


# ------------------------------------------------------------------------------------------------ P09 destinations
UNTRUSTED = re.compile(r"ZipFile|zip::|reqwest::|DirEntry|HtmlDocument|scraper::|pulldown_cmark|Url::|Package::")


def doc_root(ty):
    """is this local type document data (as opposed to a path, an option bag or a command)?"""
    s = ty["s"]
    return not re.search(r"Options|Config|Command|TempPath|Path|Cli|Args", s)


def p09(c):
    P = c.P
    gd = guards(c)
    n = 0
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if not FSMUT.search(m):
                continue
            if b.id in {g.id for g in gd.values()}:
                n += 1
                continue
            s = m.split("::")[-1]
            idx = [0, 1] if s in ("rename", "copy", "hard_link") else [1] if s in ("open", "create") and "OpenOptions" in m or "DirBuilder" in m else [0]
            fr = c.R.root(b)
            for i in idx:
                n += 1
                v = c.R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][i])
                for why in path_sources(c, b, v, gd, 0, set()):
                    c.violate("destination|%s|%s|%s" % (owner(b, P).id, s, why[0]), "%s at a path taken from %s" % (m, why[1]),
                              "%s:%s in %s" % (b.file, t[0], b.id))
    c.floor("file_system_mutations_checked", n, 18)
    c.explanation = ("every file-system mutation's path operand is resolved to its origins, through helpers and callers; origins other than a "
                     "path parameter, an options value, a constant or a temp-file guard are violations")
    c.coverage["rule"] = "files are created, replaced or removed only at paths the caller named or inside uniquely named temporary paths"


def path_sources(c, b, v, gd, depth, seen):
    """reasons why v is not a caller-named or temporary path"""
    P = c.P
    if v is None or v in seen or depth > 30:
        return []
    seen.add(v)
    k = v.k

    def rec(x, d=1):
        return path_sources(c, b, x, gd, depth + d, seen)
    if k in ("c", "fn", "clo", "idx", "discr", "un", "bin", "dead", "chr", "loc"):
        return []
    if k == "ext":
        nm = v.a[0]
        if UNTRUSTED.search(nm) and not nm.startswith("std::fs::"):
            return [("external", nm)]
        out = []
        for a in v.a[1]:
            out += rec(a)
        return out
    if k == "app":
        cb = v.a[0].body
        if returns_adt(c, cb, set(gd)) or (cb.selfty is not None and P.resolve_id(cb.crate, strip(cb.ty(cb.selfty), cb).get("d") or "") in gd):
            return []
        out = []
        if re.search(r"\b(str|String|Path|PathBuf|OsStr|OsString)\b", cb.lty(0)["s"]):
            # what it returns
            for d in c.R.defs(cb).info[0].full:
                try:
                    out += rec(c.R.defval(v.a[0], d))
                except Exception:
                    continue
        # only what the callee uses to build file names
        for x in [cb] + [P.bodies[i] for i in P.bodies if P.bodies[i].parent == cb.id]:
            fr = v.a[0] if x is cb else c.R.root(x)
            for bi, t in x.calls():
                n = mir.callee(t) or ""
                if re.search(r"Path(Buf)?::(join|push|with_file_name|set_file_name)$", n):
                    for a in t[3]:
                        try:
                            w = c.R.operand(fr, bi, len(x.blocks[bi]["s"]), a)
                        except Exception:
                            continue
                        out += path_sources(c, x, w, gd, depth + 1, seen)
        return out
    if k in ("f", "elem"):
        r, fs = v, []
        while r.k in ("f", "elem"):
            fs.append(r)
            r = r.a[0]
        if r.k == "arg":
            rb = P.body(r.a[0])
            ty = strip(rb.lty(r.a[2]), rb)
            if ty["k"] == "closure":
                return []
            if ty["k"] == "adt" and ty["s"].split("<")[0].split("::")[0] not in ("std", "core", "alloc") and doc_root(ty):
                return [("document", "%s of %s" % (pretty(v)[:80], ty["s"]))]
            return rec(r)
        return rec(r)
    if k == "arg":
        ab = P.body(v.a[0])
        o = owner(ab, P)
        ty = strip(ab.lty(v.a[2]), ab)
        if ty["k"] == "closure":
            return []
        if ab.pub and ab.kind != "closure" or ab.kind == "closure":
            return []
        out = []
        ai = v.a[2] - 1
        for caller, cb, t in c.call_sites(ab.id)[:20]:
            if ai < len(t[3]):
                w = c.R.operand(c.R.root(caller), cb, len(caller.blocks[cb]["s"]), t[3][ai])
                out += path_sources(c, caller, w, gd, depth + 1, seen)
        return out
    if k == "alt":
        return sum((rec(x) for x in v.a[0]), [])
    if k == "pick":
        return sum((rec(x) for x in v.a[1]), [])
    if k == "optalt":
        return rec(v.a[1]) + rec(v.a[2])
    if k == "agg":
        return sum((rec(x) for x in v.a[2]), [])
    if k == "cast":
        return rec(v.a[1])
    if k in ("phi", "buf"):
        # every value pushed into / assigned to the variable
        fr, l = v.a[0], v.a[1]
        out = []
        body = fr.body
        for bi, blk in enumerate(body.blocks):
            if blk.get("cl"):
                continue
            for si, s in enumerate(blk["s"]):
                if s[1] and s[1][0] == l and isinstance(s[2], list) and s[2][0] == "use":
                    out += rec(c.R.operand(fr, bi, si, s[2][1]))
            t = blk["t"]
            if t[1] == "call" and any(base_of(body, paths.oplocal(a)) == l for a in t[3][:1] if paths.oplocal(a) is not None):
                for a in t[3][1:]:
                    out += rec(c.R.operand(fr, bi, len(blk["s"]), a))
        return out
    return []


# ------------------------------------------------------------------------------------------------ P10 unsafe and shared state
NOTSYNC = re.compile(r"(^|[<(,& ])(std::rc::(Rc|Weak)<|std::cell::(Cell|RefCell|UnsafeCell|OnceCell)<|\*mut |\*const )|(^|[<(,& ])std::sync::mpsc::")
DYN = re.compile(r"dyn ([A-Za-z_:]+)[^>)]*")
OKSTATIC = re.compile(r"^&?(std::sync::(OnceLock|LazyLock)<|&|\[|std::string::String|u\d|i\d|usize|bool|f64|str)")
INTERIOR = re.compile(r"Atomic|Mutex|RwLock|Cell<|Condvar|Once\b")


def p10(c):
    P = c.P
    k = 0
    for cr in P.unsafe:
        for x in P.unsafe[cr]:
            k += 1
            if x["k"] in ("compiler", "static"):
                continue
            if x["k"] == "impl" and x.get("exp"):
                continue
            c.violate("unsafe|%s|%s" % (x["k"], x["owner"]), "%s in %s" % (x["k"], x["owner"]), "%s:%s" % (x["file"], x["line"]))
    c.coverage["unsafe_candidates_seen"] = k
    # static items and their types, as seen by the code that uses them
    statics = {}

    def w(o, b, line):
        if isinstance(o, dict):
            kk = o.get("k")
            if isinstance(kk, dict) and "static" in kk:
                statics.setdefault(kk["static"], (b, line, b.ty(o["t"])["s"] if isinstance(o.get("t"), int) and o["t"] >= 0 else "?"))
            for v in o.values():
                w(v, b, line)
        elif isinstance(o, list):
            for v in o:
                w(v, b, line)
    for b in ordered_bodies(c):
        for blk in b.blocks:
            for s in blk["s"]:
                w(s[2], b, s[0])
            w(blk["t"][2:], b, blk["t"][0])
    for n, (b, line, ty) in sorted(statics.items()):
        t = ty.lstrip("&")
        if t.startswith(("mut ", "*mut ")) or INTERIOR.search(re.sub(r"^std::sync::(OnceLock|LazyLock)<", "", t)):
            c.violate("static|%s" % n, "mutable process-wide state of type %s" % ty, "%s:%s in %s" % (b.file, line, b.id))
        elif t.startswith("*") or t == "?":
            c.violate("static|%s" % n, "process-wide state of type %s" % ty, "%s:%s in %s" % (b.file, line, b.id))
    c.coverage["statics_checked"] = len(statics)
    # thread-local state; initialisers of process-wide caches must not depend on their caller
    ncache = 0
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            n = mir.callee(t) or ""
            if re.search(r"thread::local::LocalKey", n):
                c.violate("thread-local|%s" % owner(b, P).id, "thread-local state (%s)" % n, "%s:%s in %s" % (b.file, t[0], b.id))
            if re.search(r"(once_lock|lazy_lock|OnceLock|LazyLock).*::(get_or_init|get_or_try_init|set|take|get_mut|get_or_insert)\w*$", n):
                ncache += 1
                p = t[3][0].get("c") or t[3][0].get("m")
                if n.split("::")[-1] in ("set", "take", "get_mut"):
                    if is_static(c, b, bi, t[3][0]):
                        c.violate("cache|%s|set" % owner(b, P).id, "process-wide value set from a caller (%s)" % n,
                                  "%s:%s in %s" % (b.file, t[0], b.id))
                    continue
                if len(t[3]) > 1 and is_static(c, b, bi, t[3][0]) and captures(c, b, bi, t[3][1]):
                    c.violate("cache|%s|init" % owner(b, P).id, "process-wide cache initialised from one caller's arguments",
                              "%s:%s in %s" % (b.file, t[0], b.id))
    c.coverage["cache_initialisations_checked"] = ncache
    # thread safety of public types, structurally over every field type
    na = 0
    seen = {}

    def bad_type(cr, ti, depth=0):
        if (cr, ti) in seen:
            return seen[(cr, ti)]
        seen[(cr, ti)] = None
        ty = P.types[cr][ti]
        r = None
        if ty["k"] == "ptr" or ty["s"].startswith(("*mut ", "*const ")) or re.match(r"std::(rc::(Rc|Weak)|cell::\w*Cell)<", ty["s"]):
            r = ty["s"]
        elif ty["k"] == "dyn" and not ("Send" in ty["s"] and "Sync" in ty["s"]):
            r = ty["s"]
        elif ty["k"] == "adt" and ty.get("d", "").startswith("crate::"):
            a = P.adts[cr].get(ty["d"])
            for v in (a or {"v": []})["v"]:
                for f in v["f"]:
                    r = r or bad_type(cr, f[1], depth + 1)
        if r is None:
            for a in ty.get("a", []) or []:
                if isinstance(a, int) and r is None:
                    r = bad_type(cr, a, depth + 1)
        seen[(cr, ti)] = r
        return r
    tn = set(json.load(open(TABLE))["thread_local_types"])
    for n, a in sorted(P.adts["ppt_rs"].items()):
        if not a.get("local") or not a.get("pub") or n in tn:
            continue
        na += 1
        for v in a["v"]:
            for f in v["f"]:
                r = bad_type("ppt_rs", f[1])
                if r:
                    c.violate("not-thread-safe|%s" % n, "field %s holds %s" % (f[0], r), "%s:%s" % (a["file"], a["line"]))
    c.floor("public_types_checked", na, 150)
    c.explanation = ("inventory of unsafe code, static items, thread locals and once-cells over type-checked MIR; structural Send/Sync check of "
                     "every field of every public type")
    c.coverage["rule"] = "no unsafe code, no mutable process-wide or thread-local state, no field type that is not Send and Sync"


def is_static(c, b, bi, o):
    v = c.R.operand(c.R.root(b), bi, len(b.blocks[bi]["s"]), o)
    l = paths.oplocal(o)
    for _ in range(6):
        if l is None:
            break
        nx = None
        for blk in b.blocks:
            for s in blk["s"]:
                if s[1] and s[1][0] == l and not s[1][1] and isinstance(s[2], list) and s[2][0] in ("use", "ref"):
                    if s[2][0] == "use":
                        kk = s[2][1].get("k")
                        if isinstance(kk, dict) and "static" in kk:
                            return True
                        nx = paths.oplocal(s[2][1])
                    else:
                        nx = s[2][2][0]
        l = nx
    kk = o.get("k")
    if isinstance(kk, dict) and "static" in kk:
        return True
    return v.k == "arg" and "OnceLock" in b.lty(v.a[2])["s"]


def captures(c, b, bi, o):
    """does the initialiser close over anything?"""
    l = paths.oplocal(o)
    if l is None:
        return False
    ty = b.lty(l)
    if ty["k"] == "closure":
        cb = c.P.bodies.get(c.P.resolve_id(b.crate, ty["d"]))
        return bool(cb and cb.ups)
    return ty["k"] not in ("fndef", "fnptr")


# ------------------------------------------------------------------------------------------------ error paths
def res_err(b, t):
    """error type of a call returning Result<_, E>, or None"""
    if t[4][1]:
        return None
    ty = b.lty(t[4][0])
    if ty["s"].startswith(("std::result::Result<", "core::result::Result<")):
        a = [x for x in ty["a"] if isinstance(x, int)]
        return b.ty(a[1])["s"] if len(a) > 1 else ty["s"]
    return None


COMPARE = {"Eq": int.__eq__, "Ne": int.__ne__, "Lt": int.__lt__, "Le": int.__le__, "Gt": int.__gt__, "Ge": int.__ge__}


def decisive(b):
    """locals holding a number or flag that an exit status or a branch uses"""
    m = b.__dict__.setdefault("_dec", {}) if hasattr(b, "__dict__") else {}
    if "x" in m:
        return m["x"]
    ls = set()
    for blk in b.blocks:
        t = blk["t"]
        if t[1] == "switch":
            ls.add(paths.oplocal(t[2]))
        elif t[1] == "call" and mir.callee(t) == "std::process::exit":
            ls.add(paths.oplocal(t[3][0]))
    n = -1
    while n != len(ls):
        n = len(ls)
        for blk in b.blocks:
            for st in blk["s"]:
                if st[1] and not st[1][1] and st[1][0] in ls and isinstance(st[2], list):
                    if st[2][0] == "use":
                        ls.add(paths.oplocal(st[2][1]))
                    elif st[2][0] == "un" and st[2][1] == "Not":
                        ls.add(paths.oplocal(st[2][2]))
                    elif st[2][0] == "bin" and paths.const_int(st[2][3]) is not None:
                        ls.add(paths.oplocal(st[2][2]))
    m["x"] = ls - {None}
    return m["x"]


def assigned(env, l, rv):
    """what is known about a decisive local after an assignment"""
    v = None
    if isinstance(rv, list) and rv[0] == "use":
        v = paths.const_int(rv[1])
        if v is None:
            v = env.get(paths.oplocal(rv[1]))
    elif isinstance(rv, list) and rv[0] == "un" and rv[1] == "Not":
        x = env.get(paths.oplocal(rv[2]))
        v = 1 - x if x in (0, 1) else None
    elif isinstance(rv, list) and rv[0] == "bin" and rv[1] in COMPARE:
        x, y = env.get(paths.oplocal(rv[2])), paths.const_int(rv[3])
        v = int(COMPARE[rv[1]](x, y)) if x is not None and y is not None else None
    env = dict(env)
    env.pop(l, None)
    if v is not None:
        env[l] = v
    return env


def err_ends(c, b, starts):
    """how paths from these blocks end: set of 'exit0', 'exitN', 'ok', 'err', 'diverge'"""
    out, seen = set(), set()
    dec = decisive(b)
    st = [(s, None, frozenset()) for s in starts]
    while st:
        bi, r, ev = st.pop()
        if len(seen) > 20000:
            ev = frozenset()
        if (bi, r, ev) in seen:
            continue
        seen.add((bi, r, ev))
        blk = b.blocks[bi]
        if blk.get("cl"):
            continue
        env = dict(ev)
        for s in blk["s"]:
            if s[1] and s[1][0] == 0 and isinstance(s[2], list):
                r = ret_kind(b, s[2], r)
            if s[1] and s[1][0] in dec:
                env = assigned(env, s[1][0], s[2] if not s[1][1] else None)
        t = blk["t"]
        if t[1] == "ret":
            out.add(r or "ok")
            continue
        if t[1] == "call":
            n = mir.callee(t) or ""
            if n == "std::process::exit":
                k = paths.const_int(t[3][0])
                if k is None:
                    k = env.get(paths.oplocal(t[3][0]))
                out.add("exit0" if k == 0 else "exitN")
                continue
            if t[4][0] == 0 and not t[4][1]:
                s = n.split("::")[-1]
                r = "err" if s == "from_residual" else "call"
            if t[4][0] in dec:
                env.pop(t[4][0], None)
            if t[5] < 0:
                out.add("diverge")
                continue
        if t[1] in ("unreachable",):
            continue
        nx = b.succ(bi)
        if t[1] == "switch" and paths.oplocal(t[2]) in env:
            v = env[paths.oplocal(t[2])]
            nx = [x[1] for x in t[3] if x[0] == v][:1] or [t[4]]
        for s in nx:
            st.append((s, r, frozenset(env.items())))
    return out


def ret_kind(b, rv, r):
    if rv[0] == "agg" and isinstance(rv[1], list) and len(rv[1]) > 2:
        # ["adt", def, variant, ...]
        v = [x for x in rv[1] if isinstance(x, (int, str))]
        txt = json.dumps(rv[1])
        if "Result" in txt:
            return "err" if rv[1][2] in (1, "Err") else "ok"
        return "call"
    if rv[0] == "use":
        k = rv[1].get("k")
        if isinstance(k, dict):
            return "const"
        return "moved"
    return "call"


def divergent_closure(c, b, blk):
    """closure argument of unwrap_or_else always ends the process with a failure status"""
    t = b.blocks[blk]["t"]
    for a in t[3][1:]:
        l = paths.oplocal(a)
        ty = b.lty(l) if l is not None else (b.ty(a["t"]) if isinstance(a.get("t"), int) and a["t"] >= 0 else None)
        if ty and ty["k"] in ("closure", "fndef"):
            cb = c.P.bodies.get(c.P.resolve_id(b.crate, ty["d"]))
            if cb and err_ends(c, cb, [0]) <= {"exitN", "diverge"}:
                return True
    return False


def swallow_blocks(b, aliases):
    for l in aliases:
        for kind, blk, info in paths.uses(b).get(l, ()):
            if kind == "arg" and info == 0:
                s = (mir.callee(b.blocks[blk]["t"]) or "").split("::")[-1]
                if s in paths.SWALLOW:
                    yield blk, s


def bool_err_edges(b, bi, aliases):
    """blocks entered when is_err() is true / is_ok() is false on the tracked result"""
    out = []
    for l in aliases:
        for kind, blk, info in paths.uses(b).get(l, ()):
            if kind != "arg" or info != 0:
                continue
            t = b.blocks[blk]["t"]
            s = (mir.callee(t) or "").split("::")[-1]
            if s not in ("is_err", "is_ok"):
                continue
            want = s == "is_err"
            ls = {t[4][0]}
            neg = {}
            for blk2 in b.blocks:
                for st in blk2["s"]:
                    if isinstance(st[2], list) and st[2][0] == "use" and paths.plocal(st[2][1]) in ls:
                        ls.add(st[1][0])
                    if isinstance(st[2], list) and st[2][0] == "un" and st[2][1] == "Not" and paths.plocal(st[2][2]) in ls:
                        neg[st[1][0]] = 1
            for blk2 in b.blocks:
                t2 = blk2["t"]
                if t2[1] == "switch":
                    l2 = paths.oplocal(t2[2])
                    if l2 in ls or l2 in neg:
                        truth = want != (l2 in neg)
                        f = [x[1] for x in t2[3] if x[0] == 0]
                        out += f if not truth else [t2[4]]
    return out


def check_result(c, b, bi, ok_ends):
    """None when a failure of the call ending bi always leaves the function in one of ok_ends; else the reason"""
    kinds, al = paths.fate(b, bi)
    if not kinds:
        return "the result is dropped"
    if "mem-drop" in kinds:
        return "the result is explicitly discarded"
    if kinds <= {"returned", "unwrap", "passed", "stored"}:
        return None
    for blk, s in swallow_blocks(b, al):
        if s in ("unwrap_or_else", "map_or_else") and divergent_closure(c, b, blk):
            continue
        if s in ("iter", "into_iter"):
            continue
        return "a failure is replaced by a default (%s)" % s
    if kinds == {"ok"}:
        # .ok(): the option decides nothing
        return "the error is thrown away (ok())"
    ends = set()
    ee = paths.err_edges(b, bi, al) + bool_err_edges(b, bi, al)
    if ee:
        ends = err_ends(c, b, ee)
        # the tracked result itself may be returned on the error edge
        bad = ends - set(ok_ends) - {"moved", "diverge"}
        if bad:
            return "after a failure the function still ends with %s" % "/".join(sorted(bad))
        return None
    if "ok" in kinds:
        return "the error is thrown away (ok())"
    return None


def p12(c):
    P = c.P
    n = 0
    for b in ordered_bodies(c):
        if b.crate != "pptcli":
            continue
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if res_err(b, t) is None or m.split("::")[-1] in ("branch", "from_residual", "map_err", "map", "and_then", "or_else"):
                continue
            if "core::fmt" in m or "fmt::Error" in (res_err(b, t) or ""):
                continue
            n += 1
            why = check_result(c, b, bi, ("err", "exitN"))
            if why:
                c.violate("exit-status|%s|%s" % (owner(b, P).id, m.split("::")[-2] + "::" + m.split("::")[-1] if "::" in m else m),
                          "failure of %s does not end the command with a non-zero status: %s" % (m, why), "%s:%s in %s" % (b.file, t[0], b.id))
    c.floor("fallible_calls_in_cli", n, 12)
    # command implementations: a failure inside must come out as Err
    n = 0
    for b in ordered_bodies(c):
        o = owner(b, P)
        if not (b.crate == "ppt_rs" and b.file.startswith("src/cli/commands")) or o.name != "execute":
            continue
        if b.kind == "closure":
            continue
        n += 1
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            e = res_err(b, t)
            if e is None or m.split("::")[-1] in ("branch", "from_residual", "map_err", "map", "and_then", "or_else"):
                continue
            if "fmt::Error" in e:
                continue
            if not (m.startswith("std::fs::") and "Metadata" not in m or P.callee_id(b, t) in P.bodies or write_call(c, b, t)):
                continue
            why = check_result(c, b, bi, ("err",))
            if why and m.startswith("std::fs::read") and any(
                    b.dominates(x, bi) and x != bi and (mir.callee(t2) or "").startswith("std::fs::") and not check_result(c, b, x, ("err",))
                    for x, t2 in b.calls()):
                continue    # extra detail about a file whose access was already checked
            if why:
                c.violate("command-error|%s|%s" % (o.id, m.split("::")[-1]), "failure of %s is not reported by the command: %s" % (m, why),
                          "%s:%s in %s" % (b.file, t[0], b.id))
        # validate: success only for a valid package
        if any((mir.callee(t) or "").endswith("validate_package_bytes") for _, t in b.calls()):
            g = paths.Guard(b, call=lambda body, i, t: "+" if (mir.callee(t) or "").endswith("::is_valid") else None)
            blocks, par, _ = g.reach()
            for x in blocks:
                for s in b.blocks[x]["s"]:
                    if s[1] and s[1][0] == 0 and isinstance(s[2], list) and ret_kind(b, s[2], None) == "ok":
                        c.violate("validate-status|%s" % o.id, "returns success without the report being valid", "%s:%s in %s" % (b.file, s[0], b.id))
    c.floor("command_functions", n, 4)
    c.explanation = ("every Result-returning call in the command-line binary is followed to its error edge, and every path from it must exit with a "
                     "non-zero status; command implementations must turn every inner failure into Err; validation success is guarded by report validity")
    c.coverage["rule"] = "failure implies non-zero exit status"


# ------------------------------------------------------------------------------------------------ P13 temporary files
def p13(c):
    P = c.P
    gd = guards(c)
    c.floor("guard_types", len(gd), 0)
    n = 0
    for d, db in gd.items():
        # removal must happen on every path of Drop
        def removing(body, i, t):
            return None
        rem = [bi for bi, t in db.calls() if re.search(r"^std::fs::remove_", mir.callee(t) or "")
               or any(re.search(r"^std::fs::remove_", x or "") for x in P.reachable([name(c, db, t)]))]
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            if x in rem:
                continue
            if db.blocks[x]["t"][1] == "ret":
                c.violate("drop|%s" % d, "Drop of the temporary-path guard has a path that removes nothing", db.where())
                break
            for s in db.succ(x):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
    dirs = None
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if dirs is None and gd and re.search(r"^std::fs::(create_dir|create_dir_all)$", m) and \
                    is_temp(c, c.R.operand(c.R.root(b), bi, len(b.blocks[bi]["s"]), t[3][0]), gd):
                dirs = "%s:%s in %s" % (b.file, t[0], b.id)
            if m == "std::env::temp_dir":
                n += 1
                if returns_adt(c, b, set(gd)):
                    # unique name
                    seen = P.reachable([b.id])
                    ids = [x or "" for x in seen]
                    if not any(re.search(r"new_v4|new_v7|now_v7", x) for x in ids) and not (
                            any("process::id" in x for x in ids) and any("fetch_add" in x for x in ids)):
                        c.violate("unique|%s" % b.id, "temporary name is not unique", b.where(t[0]))
                    continue
                why = temp_cleanup(c, b, bi)
                if why:
                    c.violate("temp|%s" % owner(b, P).id, "temporary path is left behind: %s" % why, "%s:%s in %s" % (b.file, t[0], b.id))
            elif re.search(r"mem::forget$|ManuallyDrop.*::new$|Box.*::leak$", m):
                tys = [b.ty(a)["s"] for a in mir.fninfo(t).get("a", [])]
                if any(g.split("::")[-1] in x for g in gd for x in tys):
                    c.violate("forget|%s" % owner(b, P).id, "temporary-path guard is leaked", "%s:%s in %s" % (b.file, t[0], b.id))
            else:
                # construction of a guard: must live in a local until the function ends
                cb = P.bodies.get(name(c, b, t))
                if cb is not None and returns_adt(c, cb, set(gd)) and not returns_adt(c, b, set(gd)):
                    n += 1
                    w = guard_use(c, b, bi)
                    if w:
                        c.violate("guard|%s" % owner(b, P).id, w, "%s:%s in %s" % (b.file, t[0], b.id))
    for d, db in gd.items():
        names = {mir.callee(t) or "" for _, t in db.calls()} | {x or "" for x in P.reachable([db.id])}
        if dirs and not any("remove_dir_all" in x for x in names):
            c.violate("drop-dir|%s" % d, "the guard is used for directories (%s) and its Drop never removes a directory with its contents" % dirs, db.where())
        if not any("remove_file" in x for x in names):
            c.violate("drop-file|%s" % d, "Drop of the temporary-path guard never removes a file", db.where())
    c.floor("temporary_path_sites", n, 3)
    c.explanation = ("temporary paths must be owned by a guard type whose Drop removes them on every path, named with a fresh unique id, never "
                     "leaked, and not dropped before the last use of the path; direct users of the temp directory must remove on every exit path")
    c.coverage["rule"] = "every temporary file or directory is removed on every exit path, success or failure"


def guard_use(c, b, bi):
    """the guard must not be moved away (mem::forget, into a returned value, static) nor dropped before its path's last use"""
    t = b.blocks[bi]["t"]
    if t[4][1]:
        return None
    l = t[4][0]
    u = paths.uses(b)
    al, st = set(), [l]
    while st:
        x = st.pop()
        if x in al:
            continue
        al.add(x)
        for kind, blk, info in u.get(x, ()):
            if kind == "copy" and not info[1] or kind == "agg" or kind == "proj" and isinstance(info, list) and not info[1]:
                if info[0] == 0:
                    return None
                st.append(info[0])
            elif kind == "arg" and not (mir.callee(b.blocks[blk]["t"]) or "").endswith("mem::drop"):
                return None                 # handed to another function, which then owns it
    # path borrowed from the guard and used after the guard's drop
    drops = [bi2 for x in al for kind, bi2, info in u.get(x, ()) if kind == "drop"
             or kind == "arg" and (mir.callee(b.blocks[bi2]["t"]) or "").endswith("mem::drop")]
    uses = [(bi2, x) for x in al for kind, bi2, info in u.get(x, ()) if kind in ("ref",)]
    if not uses:
        return "temporary path guard is dropped at once"
    if not drops:
        return None
    # every path value derived from the guard
    der, ch = set(), True
    refs = {bi2: x for bi2, x in uses}
    src = set(al)
    while ch:
        ch = False
        for blk in b.blocks:
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                d = s[1]
                if d and isinstance(s[2], list) and s[2][0] in ("ref", "use", "cast", "agg") and d[0] not in src | der \
                        and any(l in src | der for l in rv_locals(s[2])):
                    der.add(d[0])
                    ch = True
            t2 = blk["t"]
            if t2[1] == "call" and not t2[4][1] and t2[4][0] not in src | der and pathish(b.lty(t2[4][0])["s"]) and any(
                    paths.oplocal(a) in der for a in t2[3]):
                der.add(t2[4][0])
                ch = True
    users = {i for i, t2 in b.calls() if not b.blocks[i].get("cl") and any(paths.oplocal(a) in der for a in t2[3])}
    for d in drops:
        seen, st = set(), list(b.succ(d))
        while st:
            y = st.pop()
            if y in seen or y == bi or b.blocks[y].get("cl"):
                continue
            seen.add(y)
            if y in users and (FSMUT.search(mir.callee(b.blocks[y]["t"]) or "") or not (mir.callee(b.blocks[y]["t"]) or "").startswith(("core::", "<"))):
                return "the path is still used (%s, line %s) after the temporary-path guard was dropped" % (
                    mir.callee(b.blocks[y]["t"]), b.blocks[y]["t"][0])
            st.extend(b.succ(y))
    return None


def pathish(t):
    return any(x in t for x in ("Path", "OsStr", "String", "&str", "Cow<", "Display<", "Command"))


def temp_cleanup(c, b, bi):
    """a function using temp_dir() directly: from every creation at a temp path, each exit passes a removal"""
    rem = [i for i, t in b.calls() if re.search(r"^std::fs::remove_", mir.callee(t) or "")]
    cre = [i for i, t in b.calls() if FSMUT.search(mir.callee(t) or "") and i not in rem]
    if not cre:
        cre = [bi]
    for x in cre:
        seen, st = set(), list(b.succ(x))
        while st:
            y = st.pop()
            if y in seen or y in rem or b.blocks[y].get("cl"):
                continue
            seen.add(y)
            if b.blocks[y]["t"][1] == "ret":
                return "an exit path after the call at line %s removes nothing" % b.blocks[x]["t"][0]
            st.extend(b.succ(y))
    return None


# ------------------------------------------------------------------------------------------------ P14 no partial output
def p14(c):
    """a function that opens its output for writing calls nothing fallible of the library afterwards except with the open handle"""
    P = c.P
    gd = guards(c)
    n = 0
    creators = {}
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if re.search(r"^std::fs::(write|File::create\w*|OpenOptions::open)$", m) and m:
                v = c.R.operand(c.R.root(b), bi, len(b.blocks[bi]["s"]), t[3][1 if "OpenOptions" in m else 0])
                if is_temp(c, v, gd):
                    continue
                creators.setdefault(b.id, []).append((bi, t))
    for i, sites in sorted(creators.items()):
        b = P.bodies[i]
        for bi, t in sites:
            n += 1
            for x, t2, why in fallible_after(c, b, bi):
                c.violate("partial|%s|%s" % (i, why.split("::")[-1]),
                          "the output is created at line %s before %s, which can still fail" % (t[0], why), "%s:%s in %s" % (b.file, t2[0], b.id))
    c.floor("output_creation_sites", n, 8)
    c.explanation = ("for every creation of an output file: no fallible library call that does not operate on the open handle may follow it on any "
                     "path; so a generation error leaves the previous file untouched")
    c.coverage["rule"] = "output files are opened only after everything that can fail for another reason than the write itself"


def is_temp(c, v, gd):
    if v is None:
        return False
    for s in c.sources(v):
        if s.k == "app" and (returns_adt(c, s.a[0].body, set(gd))):
            return True
    return False


def fallible_after(c, b, bi):
    P = c.P
    t = b.blocks[bi]["t"]
    # locals derived from the handle
    hs = {t[4][0]} if not t[4][1] else set()
    ch = True
    while ch:
        ch = False
        for i, blk in enumerate(b.blocks):
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if s[1] and s[1][0] not in hs and isinstance(s[2], list):
                    if any(l in hs for l in rv_locals(s[2])):
                        hs.add(s[1][0])
                        ch = True
            t2 = blk["t"]
            if t2[1] == "call" and not t2[4][1] and t2[4][0] not in hs and any(paths.oplocal(a) in hs for a in t2[3]):
                hs.add(t2[4][0])
                ch = True
    seen, st = set(), list(b.succ(bi))
    while st:
        x = st.pop()
        if x in seen or b.blocks[x].get("cl"):
            continue
        seen.add(x)
        t2 = b.blocks[x]["t"]
        if t2[1] == "call":
            n = P.callee_id(b, t2) or ""
            if n in P.bodies and res_err(b, t2) is not None and not any(paths.oplocal(a) in hs for a in t2[3]):
                yield x, t2, n
        st.extend(b.succ(x))


def rv_locals(rv):
    out = []
    k = rv[0]
    if k == "use":
        out.append(paths.oplocal(rv[1]))
    elif k == "ref":
        out.append(rv[2][0])
    elif k == "cast":
        out.append(paths.oplocal(rv[2]))
    elif k == "agg":
        out += [paths.oplocal(o) for o in rv[2]]
    elif k == "discr":
        pass
    return [x for x in out if x is not None]


# ------------------------------------------------------------------------------------------------ P15 write failures
WRITECALL = re.compile(r"^std::fs::(write|create_dir|create_dir_all|rename|copy|File::create\w*)$|^<?zip::write::.*(::start_file\w*|::finish|::add_directory|"
                       r"::write_all|::write_fmt|::write|::flush)$|^std::io::Write::(write_all|write_fmt|write|flush)$|^std::io::copy")


def write_call(c, b, t):
    m = mir.callee(t) or ""
    if WRITECALL.search(m) or c.is_zip(b, t) and m.split("::")[-1] in ("start_file", "finish", "write_all", "write_fmt", "write", "flush", "add_directory",
                                                                        "start_file_from_path", "raw_copy_file"):
        return True
    s = m.split("::")[-1]
    if s in ("write_all", "write_fmt", "write", "flush") and t[3]:
        p = t[3][0].get("c") or t[3][0].get("m")
        if p:
            ty = strip(b.lty(p[0]), b)["s"]
            if re.search(r"fs::File|BufWriter|Stdout|Stderr", ty) and "Std" not in ty:
                return True
    return False


def p15(c):
    P = c.P
    direct = {}
    for b in P.bodies.values():
        for bi, t in b.calls():
            if write_call(c, b, t):
                direct.setdefault(b.id, []).append(bi)
    writers = set(direct)
    callers = P.callers()
    st = list(writers)
    while st:
        x = st.pop()
        for i, l in callers.get(x, ()):
            if i in P.bodies and i not in writers:
                writers.add(i)
                st.append(i)
    n = 0
    for b in ordered_bodies(c):
        if b.crate != "ppt_rs":
            continue
        for bi, t in b.calls():
            e = res_err(b, t)
            if e is None:
                continue
            w = write_call(c, b, t)
            cid = P.callee_id(b, t) or ""
            if not w and not (cid in writers and cid in P.bodies):
                continue
            n += 1
            why = check_result(c, b, bi, ("err",))
            if why:
                c.violate("write-error|%s|%s" % (owner(b, P).id, cid.split("::")[-1]), "a failed %s can be reported as success: %s" % (cid, why),
                          "%s:%s in %s" % (b.file, t[0], b.id))
    c.floor("write_results_checked", n, 80)
    # archives must be finished
    na = 0
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if re.search(r"^zip::write::.*ZipWriter.*::new(_append)?$", m) and not t[4][1]:
                na += 1
                w = unfinished(c, b, bi)
                if w:
                    c.violate("unfinished|%s" % owner(b, P).id, w, "%s:%s in %s" % (b.file, t[0], b.id))
    c.floor("archives_created", na, 3)
    # buffers are flushed before success; the number of bytes taken by write() is used
    nb = 0
    for b in ordered_bodies(c):
        if b.crate != "ppt_rs":
            continue
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if re.search(r"io::(buffered::)?(\w+::)*(BufWriter|LineWriter)(::)?<.*>::(new|with_capacity)$|(BufWriter|LineWriter)::(new|with_capacity)$", m) and not t[4][1]:
                nb += 1
                w = unflushed(c, b, t[4][0], b.succ(bi), 0)
                if w:
                    c.violate("unflushed|%s" % owner(b, P).id, w, "%s:%s in %s" % (b.file, t[0], b.id))
            if re.search(r"\bio::(write::)?Write::write$", (mir.fninfo(t) or {}).get("fn", "")) and b.name != "write" and res_err(b, t) is not None:
                nb += 1
                if not amount_used(b, t[4][0]):
                    c.violate("short-write|%s" % owner(b, P).id, "write() may take only part of the bytes and the number it took is not looked at",
                              "%s:%s in %s" % (b.file, t[0], b.id))
    c.coverage["buffered_and_partial_writes_checked"] = nb
    c.explanation = ("every call that writes to an archive, a file or the file system, and every local call that transitively does, must have its "
                     "Result propagated: each path from its error edge returns an error; every archive writer is finished on each successful path")
    c.coverage["rule"] = "a write that fails is never reported as success"


def amount_used(b, l):
    """is the usize inside this Result<usize> read?"""
    u = paths.uses(b)
    al, st = set(), [l]
    while st:
        x = st.pop()
        if x in al:
            continue
        al.add(x)
        if x == 0:
            return True
        num = b.lty(x)["s"] in ("usize", "&usize")
        for kind, blk, info in u.get(x, ()):
            if kind in ("copy", "proj", "ref") and isinstance(info, (list, tuple)):
                st.append(info[0])
            elif kind == "arg":
                t = b.blocks[blk]["t"]
                s = (mir.callee(t) or "").split("::")[-1]
                if num or s not in ("branch", "from_residual", "map_err", "drop", "is_err", "is_ok"):
                    return True
                if s != "from_residual":
                    st.append(t[4][0])
            elif kind in ("op", "agg", "switch") and num:
                return True
    return False


def unflushed(c, b, l0, entry, depth):
    """why a buffered writer can be dropped on a successful path without its buffer having been written"""
    u = paths.uses(b)
    ts = b.lty(l0)["s"]
    mark = re.compile(r"BufWriter|LineWriter" if "Writer<" in ts else r"(?<!\w)%s(?!\w)" % re.escape(ts))
    al, st, fin = set(), [l0], set()
    while st:
        x = st.pop()
        if x in al:
            continue
        al.add(x)
        if x == 0 and x != l0:
            return None
        for kind, blk, info in u.get(x, ()):
            if kind == "agg":
                return None
            if kind in ("copy", "proj", "ref"):
                if kind == "copy" and info[1]:
                    return None
                if mark.search(b.lty(info[0])["s"]):
                    st.append(info[0])
            elif kind == "arg":
                t = b.blocks[blk]["t"]
                s = (mir.callee(t) or "").split("::")[-1]
                dest = t[4][0]
                cid = c.P.callee_id(b, t) or ""
                cb = c.P.bodies.get(cid)
                if s in ("flush", "into_inner", "into_parts"):
                    fin.add(blk)
                elif mark.search(b.lty(dest)["s"]):
                    st.append(dest)
                elif b.lty(x)["k"] == "ref":
                    if cb is not None and any((mir.callee(x2) or "").endswith("::flush") for _, x2 in cb.calls()):
                        fin.add(blk)
                elif s == "drop":
                    continue
                elif cb is not None and depth < 4 and info < cb.argc:
                    w = unflushed(c, cb, info + 1, [0], depth + 1)
                    if w:
                        return w
                    fin.add(blk)
                else:
                    return None
    seen, st = set(), [(s, None) for s in entry]
    while st:
        x, r = st.pop()
        if (x, r) in seen or x in fin or b.blocks[x].get("cl"):
            continue
        seen.add((x, r))
        for s in b.blocks[x]["s"]:
            if s[1] and s[1][0] == 0 and isinstance(s[2], list):
                r = ret_kind(b, s[2], r)
        t = b.blocks[x]["t"]
        if t[1] == "ret":
            if r in ("ok", "moved", "const", "call"):
                return "the buffered writer is dropped without flush(): an error while its last bytes are written is lost"
            continue
        if t[1] == "call" and t[4][0] == 0 and not t[4][1]:
            r = "err" if (mir.callee(t) or "").endswith("from_residual") else "call"
        for s in b.succ(x):
            st.append((s, r))
    return None


def unfinished(c, b, bi):
    l = b.blocks[bi]["t"][4][0]
    u = paths.uses(b)
    al, st = set(), [l]
    fin = set()
    while st:
        x = st.pop()
        if x in al:
            continue
        al.add(x)
        for kind, blk, info in u.get(x, ()):
            if kind == "copy":
                if info[1]:
                    return None
                if info[0] == 0:
                    return None
                st.append(info[0])
            elif kind == "ref" and not info[1]:
                st.append(info[0])
            elif kind == "agg":
                return None
            elif kind == "arg":
                t = b.blocks[blk]["t"]
                n = mir.callee(t) or ""
                if n.split("::")[-1] in ("finish", "finish_into_readable"):
                    fin.add(blk)
                else:
                    p = t[3][info].get("m") or t[3][info].get("c")
                    if p and not p[1] and b.lty(p[0])["k"] == "adt" and "ZipWriter" in b.lty(p[0])["s"]:
                        return None     # moved into a helper
                    cb = c.P.bodies.get(c.P.callee_id(b, t) or "")
                    if cb is not None and any((mir.callee(x2) or "").endswith("::finish") for _, x2 in cb.calls()):
                        fin.add(blk)
    # a success return reachable without finish
    seen, st = set(), [(s, None) for s in b.succ(bi)]
    while st:
        x, r = st.pop()
        if (x, r) in seen or x in fin or b.blocks[x].get("cl"):
            continue
        seen.add((x, r))
        for s in b.blocks[x]["s"]:
            if s[1] and s[1][0] == 0 and isinstance(s[2], list):
                r = ret_kind(b, s[2], r)
        t = b.blocks[x]["t"]
        if t[1] == "ret":
            if r in ("ok", "moved", "const", "call"):
                return "a successful return is reachable without finishing the archive"
            continue
        if t[1] == "call" and t[4][0] == 0 and not t[4][1]:
            r = "err" if (mir.callee(t) or "").endswith("from_residual") else "call"
        for s in b.succ(x):
            st.append((s, r))
    return None


# ------------------------------------------------------------------------------------------------ P25 network
def p25(c):
    P = c.P
    n = 0
    for b in ordered_bodies(c):
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            if not EFFECTS["net"].search(m):
                continue
            n += 1
            why = unguarded(c, b, bi, 0, ())
            if why:
                c.violate("unguarded|%s" % owner(b, P).id, "network request reachable without an explicit http(s) URL: %s" % why[-1],
                          "%s:%s in %s" % (b.file, t[0], b.id), why)
    # images that will be fetched at generation time: URL sources built from parsed documents need the same test
    ctors = set()
    for b in ordered_bodies(c):
        for bi, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if isinstance(s[2], list) and s[2][0] == "agg" and isinstance(s[2][1], list) and "ImageSource" in json.dumps(s[2][1]) \
                        and "Url" in json.dumps(s[2][1]):
                    if b.derived:
                        continue
                    if b.pub and b.kind != "closure" and returns_adt(c, b, {x for x in P.adts["ppt_rs"] if x.endswith("::Image")}):
                        ctors.add(b.id)
                    elif DOCIN.search(b.file):
                        n += 1
                        why = unguarded(c, b, bi, 0, ())
                        if why:
                            c.violate("url-image|%s" % owner(b, P).id, "builds a fetched image from an untested address", "%s:%s in %s" % (b.file, s[0], b.id), why)
    for i in sorted(ctors):
        for b, bi, t in c.call_sites(i):
            if not DOCIN.search(b.file):
                continue
            n += 1
            why = unguarded(c, b, bi, 0, ())
            if why:
                c.violate("url-image|%s" % owner(b, P).id, "builds a fetched image from an untested address", "%s:%s in %s" % (b.file, t[0], b.id), why)
    c.coverage["url_image_constructors"] = len(ctors)
    c.floor("network_sites", n, 3)
    c.explanation = ("path-sensitive guard analysis: every network request must be control-dependent, here or in every caller, on an http(s) scheme test "
                     "or on a value the caller explicitly constructed as a URL")
    c.coverage["rule"] = "the network is contacted only for values that were tested to be http(s) URLs or explicitly declared as such"


DOCIN = re.compile(r"^src/(import|web2ppt|cli|api|html)")
HTTP = ("http://", "https://", "http", "https", "http:", "https:")


def str_args(c, b, bi, t):
    out = []
    for a in t[3][1:]:
        v = c.R.operand(c.R.root(b), bi, len(b.blocks[bi]["s"]), a)
        if v.k == "c" and isinstance(v.a[1], str):
            out.append(v.a[1])
    for a in t[3]:
        k = a.get("k")
        if isinstance(k, dict) and "str" in k:
            out.append(k["str"])
    return out


def place_ty(b, p):
    """type of a place"""
    ty = b.lty(p[0])
    for e in p[1]:
        if e[0] == "*":
            ty = b.ty(ty["a"][0]) if ty["k"] in ("ref", "ptr") or ty.get("a") else None
        elif e[0] == "f":
            ty = b.ty(e[4]) if len(e) > 4 and isinstance(e[4], int) else None
        elif e[0] == "d":
            continue
        else:
            return None
        if ty is None:
            return None
    return strip(ty, b)


def stripped(c, v, d=0):
    """an Option that is Some only for text behind an http(s) prefix"""
    if v is None or d > 6:
        return False
    if v.k == "clo":
        cb = c.P.bodies.get(v.a[0])
        return cb is not None and stripped(c, c.R.call_value(v, (), None), d + 1)
    if v.k == "app":
        x = c.R.inl(v)
        if x is v:
            x = c.R.predval(v)
        if x is None or x is v:
            li = c.R.defs(v.a[0].body).info[0]
            x = c.R.defval(v.a[0], li.full[0]) if len(li.full) == 1 else None
        return stripped(c, x, d + 1)
    if v.k == "ext" and v.a[1]:
        s = v.a[0].split("::")[-1]
        if s == "strip_prefix":
            return any(x.k == "c" and x.a[1] in HTTP and ":" in x.a[1] for x in v.a[1][1:])
        if s in ("or", "or_else"):
            return stripped(c, v.a[1][0], d + 1) and stripped(c, v.a[1][1], d + 1)
        if s in ("map", "filter", "as_ref", "and_then", "copied", "cloned"):
            return stripped(c, v.a[1][0], d + 1)
    return False


def guard_call(c):
    memo = {}

    def call(body, bi, t):
        n = mir.callee(t) or ""
        s = n.split("::")[-1]
        if s in ("starts_with", "eq", "contains"):
            if s != "contains" and any(x in HTTP and (s == "eq" or ":" in x) for x in str_args(c, body, bi, t)):
                return "+"
        if s in ("is_some", "is_none") and t[3] and stripped(c, c.R.operand(c.R.root(body), bi, len(body.blocks[bi]["s"]), t[3][0])):
            return "+" if s == "is_some" else "-"
        if s in ("any", "contains") and t[3]:
            # one of a literal list of prefixes / schemes
            v = c.R.operand(c.R.root(body), bi, len(body.blocks[bi]["s"]), t[3][0])
            arr = c.R.litarray(v)
            w = [x.a[1] for x in arr or () if x.k == "c" and isinstance(x.a[1], str)]
            if w and len(w) == len(arr) and all(x in HTTP for x in w):
                clo = c.R.operand(c.R.root(body), bi, len(body.blocks[bi]["s"]), t[3][1]) if len(t[3]) > 1 else None
                cb = c.P.bodies.get(clo.a[0]) if clo is not None and clo.k == "clo" else None
                if s == "contains" or cb is not None and any((mir.callee(x) or "").split("::")[-1] == ("eq" if ":" not in w[0] else "starts_with") for _, x in cb.calls()):
                    return "+"
        if s == "ne" and any(x in HTTP for x in str_args(c, body, bi, t)):
            return "-"
        cb = c.P.bodies.get(c.P.callee_id(body, t) or "")
        if cb is not None and cb.lty(0)["s"] == "bool":
            if cb.id not in memo:
                memo[cb.id] = None
                memo[cb.id] = paths.bool_summary(cb, call)
            return memo[cb.id]
        return None
    return call


class NetGuard(paths.Guard):
    def edge_guard(self, bi, t, val):
        # match on an enum variant that carries an explicit URL
        l = paths.oplocal(t[2])
        for s in self.b.blocks[bi]["s"]:
            if isinstance(s[2], list) and s[2][0] == "discr" and s[1][0] == l:
                if val == 1 and stripped(self.c, self.c.R.place(self.c.R.root(self.b), bi, len(self.b.blocks[bi]["s"]), s[2][1])):
                    return True
                ty = place_ty(self.b, s[2][1])
                a = self.c.P.adts["ppt_rs"].get(self.c.P.resolve_id(self.b.crate, ty.get("d", ""))) if ty and ty["k"] == "adt" else None
                if not a:
                    continue
                for v in a["v"]:
                    if v["d"] == val and v["n"] in ("Url", "Remote", "Http") and a["enum"]:
                        return True
        return False


def unguarded(c, b, bi, depth, stack):
    """None when the block is only reached with the guard established; else a path description"""
    if depth > 6 or b.id in stack:
        return None
    g = NetGuard(b, call=guard_call(c))
    g.c = c
    try:
        blocks, par, _ = g.reach()
    except RuntimeError as e:
        c.undec(str(e))
        return None
    if bi not in blocks:
        return None
    if b.kind == "closure":
        pb = c.P.bodies.get(b.parent)
        if pb is not None:
            for i, blk in enumerate(pb.blocks):
                if any(isinstance(s[2], list) and s[2][0] == "agg" and s[2][1] and s[2][1][0] == "closure" and c.P.resolve_id(b.crate, s[2][1][1]) == b.id
                       for s in blk["s"]):
                    return unguarded(c, pb, i, depth + 1, stack + (b.id,))
    sites = c.call_sites(b.id)
    if not sites:
        return [b.id]
    for caller, cb, t in sites:
        w = unguarded(c, caller, cb, depth + 1, stack + (b.id,))
        if w:
            return [b.id] + w
    if b.pub and exported(c, b):
        return [b.id]
    return None


def exported(c, b):
    return b.pub and b.id in set(json.load(open(TABLE))["net"])


RUN = {"P07": p07, "P08": p08, "P09": p09, "P10": p10, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P25": p25}


def run(c):
    RUN[c.id](c)
    c.assumptions += ["calls into other crates have only the effects their documentation states",
                      "virtual calls may reach every implementation in this crate"]
