"""C++ type strings -> engine types."""
from .cxxast import norm
from .values import Unsupported

INTS = {"int", "long", "long long", "short", "signed char", "char", "int64_t", "int32_t", "long int", "ptrdiff_t", "difference_type", "__int64", "clock_t"}
UINTS = {"unsigned int", "unsigned long", "size_t", "std::size_t", "unsigned", "uint32_t", "uint64_t", "unsigned char", "unsigned long long", "size_type", "uint_fast32_t"}
REALS = {"double", "float", "long double"}


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, unit):
        self.u = unit
        self.cache = {}

    def of(self, node, rec=None):
        t = node["type"] if "type" in node else node
        for k in ("desugaredQualType", "qualType"):
            if k in t:
                try:
                    return self.parse(t[k], rec)
                except Unsupported:
                    if k == "qualType":
                        raise
        raise Unsupported("type")

    def parse(self, s, rec=None):
        key = (s, rec)
        if key not in self.cache:
            self.cache[key] = self._parse(norm(s), rec, 0)
        return self.cache[key]

    def _parse(self, s, rec, depth):
        if depth > 20:
            raise Unsupported("type recursion " + s)
        s = s.strip()
        while True:
            o = s
            for q in ("const ", "volatile ", "mutable "):
                if s.startswith(q):
                    s = s[len(q):].strip()
            if s.endswith("const") and (len(s) == 5 or not (s[-6].isalnum() or s[-6] == "_")):
                s = s[:-5].strip()
            if s.endswith(" const"):
                s = s[:-6].strip()
            if o == s:
                break
        if s.endswith("&&"):
            return ("ref", self._parse(s[:-2], rec, depth + 1))
        if s.endswith("&"):
            return ("ref", self._parse(s[:-1], rec, depth + 1))
        if s.endswith("*"):
            return ("ptr", self._parse(s[:-1], rec, depth + 1))
        if s.endswith("]") and "[" in s and s[s.rindex("[") + 1:-1].isdigit():
            return ("arr", self._parse(s[:s.rindex("[")], rec, depth + 1), int(s[s.rindex("[") + 1:-1]))
        if s in INTS:
            return ("int",)
        if s in UINTS:
            return ("uint",)
        if s in REALS:
            return ("real",)
        if s in ("bool", "_Bool"):
            return ("bool",)
        if s == "void":
            return ("void",)
        if s in ("std::string", "string", "std::basic_string<char>", "basic_string<char>") or s.startswith("basic_string<char"):
            return ("str",)
        b = s[5:] if s.startswith("std::") else s
        if b.startswith("__cxx11::"):
            b = b[9:]
        if "<" in b and b.endswith(">"):
            nm, args = b[:b.index("<")], split_args(b[b.index("<") + 1:-1])
            P = lambda x: self._parse(x, rec, depth + 1)
            if nm in ("vector", "deque", "initializer_list"):
                return ("vec", P(args[0]))
            if nm == "array":
                return ("arr", P(args[0]), int(args[1].rstrip("UL")))
            if nm == "pair":
                return ("pair", P(args[0]), P(args[1]))
            if nm in ("map", "unordered_map"):
                return ("map", P(args[0]), P(args[1]))
            if nm in ("set", "unordered_set"):
                return ("set", P(args[0]))
            if nm in ("shared_ptr", "unique_ptr", "__shared_ptr", "__shared_ptr_access"):
                return ("ptr", P(args[0]))
            if nm == "SolContainer" and len(args) == 1:  # alias template: one node for totally ordered tasks, a set otherwise
                t = P(args[0])
                if t[0] == "rec":
                    return P("Node<%s>" % t[1]) if self.static_bool(t[1], "total_order") else ("ptr", P("Container<%s>" % t[1]))
            if nm.startswith("__normal_iterator") or nm.startswith("__gnu_cxx::__normal_iterator") or nm in ("__gnu_cxx::__normal_iterator",):
                return ("iter",)
            if nm in ("function",):
                return ("fun",)
        if "__normal_iterator" in s or "_iterator<" in s:
            return ("iter",)
        if s in self.u.records:
            return ("rec", s)
        r = rec
        while r:
            if r + "::" + s in self.u.records:
                return ("rec", r + "::" + s)
            r = self._split_scope(r)[0]
        # name<args> with sugar inside the arguments
        if "<" in s and s.endswith(">") and not s.startswith("std::"):
            nm, args = s[:s.index("<")], split_args(s[s.index("<") + 1:-1])
            try:
                cand = nm + "<" + ",".join(self.name(self._parse(a, rec, depth + 1)) for a in args) + ">"
            except Unsupported:
                cand = s
            if cand in self.u.records:
                return ("rec", cand)
        al = self._alias(s, rec)
        if al is not None:
            (t, r) = al
            q = t.get("desugaredQualType") or t["qualType"]
            try:
                return self._parse(norm(q), r, depth + 1)
            except Unsupported:
                return self._parse(norm(t["qualType"]), r, depth + 1)
        if "::" in s:
            head, tail = self._split_scope(s)
            if head:
                try:
                    h = self._parse(head, rec, depth + 1)
                except Unsupported:
                    h = None
                if h and h[0] == "rec":
                    al = self._alias(tail, h[1])
                    if al is not None:
                        t, r = al
                        q = t.get("desugaredQualType") or t["qualType"]
                        return self._parse(norm(q), r, depth + 1)
        for base in ("default_random_engine", "mersenne", "linear_congruential", "ostream", "istringstream", "stringstream", "clock", "chrono", "ofstream", "ifstream", "istream", "uniform_"):
            if base in s:
                return ("opaque", s)
        for n in self.u.byid.values():
            if n.get("kind") == "EnumDecl" and n.get("name") == s.split("::")[-1]:
                return ("int",)
        raise Unsupported("type '%s'" % s)

    def _split_scope(self, s):
        d = 0
        for i in range(len(s) - 1, 0, -1):
            if s[i] in ">)":
                d += 1
            elif s[i] in "<(":
                d -= 1
            elif d == 0 and s[i - 1:i + 1] == "::":
                return s[:i - 1], s[i + 1:]
        return None, s

    def static_bool(self, rec, name):
        """Value of a static constant of a class or its bases."""
        todo = [rec]
        while todo:
            r = todo.pop(0)
            for c in self.u.records.get(r, {}).get("inner", []):
                if c.get("kind") == "VarDecl" and c.get("name") == name:
                    st = list(c.get("inner", []))
                    while st:
                        x = st.pop()
                        if x.get("kind") == "CXXBoolLiteralExpr":
                            return bool(x["value"])
                        st += x.get("inner", [])
            todo += self.bases(r)
        raise Unsupported("constant %s::%s" % (rec, name))

    def bases(self, rec):
        r = self.u.records.get(rec)
        out = []
        for b in (r or {}).get("bases", []):
            t = b["type"]
            if "enable_shared_from_this<" in t["qualType"]:
                continue
            try:
                p = self._parse(norm(t.get("desugaredQualType") or t["qualType"]), rec, 0)
            except Unsupported:
                continue
            if p[0] == "rec":
                out.append(p[1])
        return out

    def _alias(self, s, rec):
        seen, todo = set(), [rec] if rec else []
        while todo:
            r = todo.pop(0)
            if r in seen or r is None:
                continue
            seen.add(r)
            if (r, s) in self.u.aliases:
                return self.u.aliases[(r, s)], r
            todo += self.bases(r)
            if self._split_scope(r)[0]:
                todo.append(self._split_scope(r)[0])
        if (None, s) in self.u.aliases:
            return self.u.aliases[(None, s)], None
        return None

    def name(self, t):
        if t[0] == "rec":
            return t[1]
        return {"int": "int", "real": "double", "bool": "bool", "uint": "size_t"}.get(t[0], "?")

    def fields(self, rec):
        """[(name, type, declaring record, FieldDecl)] including bases."""
        out = []
        for b in self.bases(rec):
            out += self.fields(b)
        for c in self.u.records[rec].get("inner", []):
            if c.get("kind") == "FieldDecl" and "name" in c:
                out.append((c["name"], c, rec))
        return out
