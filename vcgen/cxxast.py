"""Loads clang's typed AST of a source file of /repo (JSON dump) and indexes it."""
import hashlib, json, os, pickle, re, subprocess, sys
sys.setrecursionlimit(20000)

CLANG = "clang++-18"
DROP = ("loc", "range", "isUsed", "isReferenced", "isImplicit", "nrvo", "definitionData", "foundReferencedDecl", "valueCategory_", "cleanupsHaveSideEffects", "objectKind")


def _strip(n):
    """Drops what is not needed and puts the line number on each node (clang prints a line only when it changes)."""
    cur = [0]

    def look(d):
        # document order matters: every printed line updates the current one
        if "line" in d:
            cur[0] = d["line"]
        for k in ("spellingLoc", "expansionLoc"):
            if k in d:
                look(d[k])

    def walk(x):
        ln = None
        for k, v in x.items():
            if k == "loc":
                look(v)
                if v:
                    ln = cur[0]
            elif k == "range":
                look(v.get("begin") or {})
                if ln is None:
                    ln = cur[0]
                look(v.get("end") or {})
        for k, v in list(x.items()):
            if k in DROP:
                continue
            if isinstance(v, list):
                for y in v:
                    if isinstance(y, dict):
                        walk(y)
        for k in DROP:
            x.pop(k, None)
        if ln:
            x["line"] = ln
    walk(n)
    return n


def norm(t):
    """Normalises a type or record name."""
    t = re.sub(r"\b(class|struct|enum|typename) ", "", t)
    t = t.replace("STreeD::", "")
    t = re.sub(r"\s+", " ", t).strip()
    t = re.sub(r" ?([<>,&*()]) ?", r"\1", t)
    return t


class Unit:
    """One translation unit."""
    def __init__(self, docs):
        self.byid, self.records, self.funcs, self.fields, self.mangled = {}, {}, {}, {}, {}
        self.aliases = {}
        self.globals = {}
        for d in docs:
            self._index(d, [], None)
        for d in docs:
            self._defs(d)

    def _rec_name(self, n):
        name = n.get("name", "")
        if n["kind"] in ("ClassTemplateSpecializationDecl",):
            args = [c["type"]["qualType"] if "type" in c else str(c.get("value", "?")) for c in n.get("inner", []) if c["kind"] == "TemplateArgument"]
            name += "<" + ",".join(norm(a) for a in args) + ">"
        return name

    def _index(self, n, ctx, rec):
        k = n.get("kind")
        if k is None:
            return
        if "id" in n:
            self.byid[n["id"]] = n
        n["_rec"] = rec
        if k == "NamespaceDecl":
            sub = ctx if n.get("name") == "STreeD" else ctx + [n.get("name", "")]
            for c in n.get("inner", []):
                self._index(c, sub, rec)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            nm = "::".join(ctx + [self._rec_name(n)])
            n["_name"] = nm
            if n.get("inner") and (n.get("completeDefinition") or any(c.get("kind") == "FieldDecl" for c in n["inner"])):
                if nm not in self.records:
                    self.records[nm] = n
            for c in n.get("inner", []):
                self._index(c, ctx + [self._rec_name(n)], nm)
            return
        if k == "TypeAliasDecl" or k == "TypedefDecl":
            self.aliases[(rec, n["name"])] = n["type"]
        if k == "FieldDecl":
            self.fields[n["id"]] = (rec, n.get("name", ""))
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            n["_ctx"] = ctx
        if k == "VarDecl" and (rec is not None or ctx == [] or True):
            self.globals[n["id"]] = n
        for c in n.get("inner", []) or []:
            self._index(c, ctx, rec)

    def _defs(self, n):
        st = [n]
        while st:
            x = st.pop()
            k = x.get("kind")
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl") and "name" in x:
                if "previousDecl" in x and x["previousDecl"] in self.byid:
                    p = self.byid[x["previousDecl"]]
                    while "previousDecl" in p and p["previousDecl"] in self.byid:
                        p = self.byid[p["previousDecl"]]
                    x["_rec"] = p.get("_rec") or x.get("_rec")
                elif "parentDeclContextId" in x and x["parentDeclContextId"] in self.byid:
                    x["_rec"] = self.byid[x["parentDeclContextId"]].get("_name", x.get("_rec"))
                nm = x["name"]
                r = x["_rec"]
                if k == "CXXConstructorDecl":
                    nm = nm.split("<")[0]
                targs = [c for c in x.get("inner", []) if c.get("kind") == "TemplateArgument"]
                if targs:
                    nm += "<" + ",".join(norm(c["type"]["qualType"]) if "type" in c else str(c.get("value", "?")) for c in targs) + ">"
                x["_q"] = (r + "::" if r else "") + nm
                if "mangledName" in x and any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in x.get("inner", [])):
                    self.mangled.setdefault(x["mangledName"], x)
                    self.funcs.setdefault(x["_q"], [])
                    if x not in self.funcs[x["_q"]]:
                        self.funcs[x["_q"]].append(x)
            st.extend(c for c in x.get("inner", []) or [] if isinstance(c, dict))

    def definition(self, decl_id):
        d = self.byid.get(decl_id)
        if d is None:
            return None
        if any(c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
            return d
        return self.mangled.get(d.get("mangledName"))

    def find(self, q, nparams=None, sig=None):
        """Functions with qualified name q that have a body."""
        r = [f for f in self.funcs.get(q, []) if not f.get("_tmpl")]
        if nparams is not None:
            r = [f for f in r if len(params(f)) == nparams]
        if sig is not None:
            r = [f for f in r if sig in norm(f["type"]["qualType"])]
        return r


def params(f):
    return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def body(f):
    for c in f.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


_mem = {}


def load(repo, rel, cache_dir, defines=()):
    """Parses one file; cached on the preprocessed text."""
    cmd = [CLANG, "-std=c++17", "-I" + os.path.join(repo, "include"), *["-D" + d for d in defines]]
    src = rel if os.path.isabs(rel) else os.path.join(repo, rel)
    pp = subprocess.run(cmd + ["-E", "-P", src], capture_output=True)
    if pp.returncode:
        raise RuntimeError("cannot preprocess %s: %s" % (rel, pp.stderr.decode()[:400]))
    h = hashlib.sha256(pp.stdout + open(__file__, "rb").read() + rel.encode()).hexdigest()[:24]
    if h in _mem:
        return _mem[h]
    f = os.path.join(cache_dir, "ast-%s.pkl" % h)
    if os.path.exists(f):
        with open(f, "rb") as fh:
            docs = pickle.load(fh)
    else:
        r = subprocess.run(cmd + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=STreeD", src], capture_output=True)
        if r.returncode:
            raise RuntimeError("clang rejects %s: %s" % (rel, r.stderr.decode()[:400]))
        txt = r.stdout.decode(errors="replace")
        dec, i, docs = json.JSONDecoder(), 0, []
        n = len(txt)
        while i < n:
            while i < n and txt[i].isspace():
                i += 1
            if i >= n:
                break
            d, i = dec.raw_decode(txt, i)
            docs.append(_strip(d))
        os.makedirs(cache_dir, exist_ok=True)
        tmp = f + ".%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(docs, fh, protocol=4)
        os.replace(tmp, f)
    u = Unit(docs)
    _mem[h] = u
    return u
