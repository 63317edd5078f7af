"""Generates the message classes of a .proto file for the protobuf stand-in of /verif/shim (proto2 subset).
The byte form is a fixed-layout one (presence mask, fixed-width scalars, then length-prefixed strings): the
real encoding belongs to libprotobuf, whose contract (serialise then parse is the identity, parsing consumes the
stream, missing required fields are rejected) is what this stand-in keeps."""
import re, sys, os
CPP = {'int32': 'int32', 'int64': 'int64', 'uint32': 'uint32', 'uint64': 'uint64', 'bool': 'bool', 'float': 'float', 'double': 'double', 'string': 'string', 'bytes': 'string'}
W = {'int32': 4, 'int64': 8, 'uint32': 4, 'uint64': 8, 'bool': 1, 'float': 4, 'double': 8}

def strip(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)

def block(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{': d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0: return j
    raise ValueError('unbalanced')

def gen(path, srcroot):
    s = strip(open(path).read())
    rel = os.path.relpath(path, srcroot)
    pkg = re.search(r'package\s+([\w.]+)\s*;', s).group(1)
    ns = pkg.split('.')
    out = ['// generated from %s by lib/protogen.py' % rel, '#pragma once', '#include <google/protobuf/service.h>', '#include <google/protobuf/descriptor.pb.h>', '#include <vector>']
    for imp in re.findall(r'import\s+"([^"]+)"', s):
        if imp.startswith('sofa/'): out.append('#include <%s>' % imp.replace('.proto', '.pb.h'))
    out += ['namespace %s {' % n for n in ns]
    enums, msgs, services, slot = ENUMS, [], [], 0
    for m in re.finditer(r'\b(enum|message|extend|service)\s+([\w.]+)\s*\{', s):
        pre = s[:m.start()]
        if pre.count('{') != pre.count('}'): continue
        body = s[m.end():block(s, m.end() - 1)]
        if m.group(1) == 'enum': enums[m.group(2)] = emit_enum(out, m.group(2), body, False)
        elif m.group(1) == 'message': msgs.append((m.group(2), body))
        elif m.group(1) == 'service': services.append((m.group(2), body))
        else:
            for f in re.finditer(r'(optional|required)\s+(\w+)\s+(\w+)\s*=\s*(\d+)\s*(?:\[([^\]]*)\])?\s*;', body):
                t = '::google::protobuf::' + CPP[f.group(2)] if f.group(2) in CPP else f.group(2)
                d = re.search(r'default\s*=\s*(\w+)', f.group(5) or '')
                out.append('static const ::google::protobuf::sx_Ext< %s > %s = { %d, %s };' % (t, f.group(3), slot, d.group(1) if d else '(%s)0' % t)); slot += 1
    for n, _ in msgs: out.append('class %s;' % n)
    for n, b in msgs: emit_msg(out, n, b, enums, [x for x, _ in msgs])
    for n, b in services: emit_svc(out, n, b, pkg)
    out += ['}' for n in ns]
    return '\n'.join(out) + '\n'

def emit_enum(out, name, body, nested):
    vals = re.findall(r'(\w+)\s*=\s*(-?\d+)\s*;', body)
    real = name.replace('::', '_')
    out.append('enum %s { %s };' % (real, ', '.join(('%s_%s = %s' % (real, v, n)) if nested else '%s = %s' % (v, n) for v, n in vals)))
    out.append('inline bool %s_IsValid(int v) { return %s; }' % (real, ' || '.join('v == ' + n for _, n in vals)))
    out.append('inline const std::string& %s_Name(int v) { static std::string r; r = ""; %s return r; }' % (real, ' '.join('if (v == %s) r = "%s";' % (n, v) for v, n in vals)))
    return [v for v, _ in vals], (vals[0][0], vals[0][1])

def emit_msg(out, name, body, enums, msgs):
    local = {}
    for m in list(re.finditer(r'enum\s+(\w+)\s*\{([^}]*)\}\s*;?', body)):
        local[m.group(1)] = (emit_enum(out, name + '::' + m.group(1), m.group(2), True), re.findall(r'(\w+)\s*=\s*(-?\d+)\s*;', m.group(2)))
    body = re.sub(r'enum\s+\w+\s*\{[^}]*\}\s*;?', '', body)
    fs = []
    for f in re.finditer(r'(optional|required|repeated)\s+([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(?:\[([^\]]*)\])?\s*;', body):
        d = re.search(r'default\s*=\s*("[^"]*"|[\w.\-]+)', f.group(5) or '')
        fs.append((f.group(1), f.group(2), f.group(3), d.group(1) if d else None))
    o = out.append
    o('class %s : public ::google::protobuf::Message { public:' % name)
    G = '::google::protobuf::'
    init, cl, req = [], [], []
    for en, (_, vals) in local.items():
        o('  typedef %s_%s %s;' % (name, en, en))
        for v, n in vals: o('  static constexpr %s %s = %s_%s_%s;' % (en, v, name, en, v))
        o('  static bool %s_IsValid(int v) { return %s_%s_IsValid(v); } static const std::string& %s_Name(int v) { return %s_%s_Name(v); }' % (en, name, en, en, name, en))
    wr, rd, wrs, rds = [], [], [], []
    simple = True
    for i, (lab, ty, n, d) in enumerate(fs):
        kind = 'str' if ty in ('string', 'bytes') else 'scalar' if ty in CPP else 'enum' if (ty in local or ty in enums) else 'msg'
        ct = {'str': 'std::string', 'scalar': (G + CPP[ty]) if ty in CPP and CPP[ty] not in ('bool', 'float', 'double') else CPP.get(ty), 'enum': ty, 'msg': ('::' + ty.replace('.', '::')) if '.' in ty else ty}[kind]
        if kind == 'scalar' and ct is None: ct = ty
        if lab == 'repeated':
            simple = False
            if kind == 'msg':
                o('  std::vector< %s* > %s_r; %s* add_%s() { %s_r.push_back(new %s); return %s_r.back(); } int %s_size() const { return (int)%s_r.size(); } const %s& %s(int i) const { return *%s_r[i]; } %s* mutable_%s(int i) { return %s_r[i]; } void clear_%s() { for (size_t i = 0; i < %s_r.size(); i++) delete %s_r[i]; %s_r.clear(); }' % (ct, n, ct, n, n, ct, n, n, n, ct, n, n, ct, n, n, n, n, n, n))
                cl.append('clear_%s();' % n)
            else:
                o('  std::vector< %s > %s_r; int %s_size() const { return (int)%s_r.size(); } const %s& %s(int i) const { return %s_r[i]; } void clear_%s() { %s_r.clear(); }' % (ct, n, n, n, ct, n, n, n, n))
                o('  void add_%s(const %s& v) { %s_r.push_back(v); } %s* add_%s() { %s_r.push_back(%s()); return &%s_r.back(); } %s* mutable_%s(int i) { return &%s_r[i]; }' % (n, ct, n, ct, n, n, ct, n, ct, n, n))
                cl.append('clear_%s();' % n)
            continue
        if lab == 'required': req.append('has%s_' % n)
        o('  bool has%s_; bool has_%s() const { return has%s_; }' % (n, n, n)); init.append('has%s_(false)' % n)
        bit = 1 << i
        if kind == 'msg':
            simple = False
            o('  %s* %s_p; static const %s& def_%s(); const %s& %s() const; %s* mutable_%s(); void clear_%s();' % (ct, n, ct, n, ct, n, ct, n, n))
            init.append('%s_p(0)' % n); cl.append('clear_%s();' % n)
            out_late.append('inline const %s& %s::def_%s() { static %s d; return d; } inline const %s& %s::%s() const { return %s_p ? *%s_p : def_%s(); } inline %s* %s::mutable_%s() { has%s_ = true; if (!%s_p) %s_p = new %s; return %s_p; } inline void %s::clear_%s() { has%s_ = false; delete %s_p; %s_p = 0; }' % (ct, name, n, ct, ct, name, n, n, n, n, ct, name, n, n, n, n, ct, n, name, n, n, n, n))
        elif kind == 'str':
            dv = d or '""'
            o('  std::string %s_; const std::string& %s() const { return %s_; } void set_%s(const std::string& v) { has%s_ = true; %s_ = v; } void set_%s(const char* v) { has%s_ = true; %s_ = v; } void set_%s(const char* v, size_t k) { has%s_ = true; %s_.assign(v, k); } std::string* mutable_%s() { has%s_ = true; return &%s_; } void clear_%s() { has%s_ = false; %s_ = %s; }' % tuple([n] * 18 + [dv]))
            init.append('%s_(%s)' % (n, dv)); cl.append('clear_%s();' % n)
            wrs.append('o->push_back((char)(has%s_ ? %s_.size() : 0)); if (has%s_) o->append(%s_); else m &= m;' % (n, n, n, n))
            rds.append('if (p >= in.size()) return false; { size_t l = (unsigned char)in[p++]; if (in.size() - p < l) return false; if (m & %d) { has%s_ = true; %s_.assign(in, p, l); } else if (l) return false; p += l; }' % (bit, n, n))
            wr.append('if (has%s_) m |= %d;' % (n, bit))
        else:
            if kind == 'enum':
                dv = d or ((name + '_' + ty + '_' + local[ty][1][0][0]) if ty in local else '(%s)%s' % (ty, enums[ty][1][1])); w = 4; raw = G + 'int32'
            else:
                dv = d or '0'; w = W[ty]; raw = ct if ct != 'bool' else 'unsigned char'
            o('  %s %s_; %s %s() const { return %s_; } void set_%s(%s v) { has%s_ = true; %s_ = v; } void clear_%s() { has%s_ = false; %s_ = %s; }' % (ct, n, ct, n, n, n, ct, n, n, n, n, n, dv))
            init.append('%s_(%s)' % (n, dv)); cl.append('clear_%s();' % n)
            wr.append('if (has%s_) m |= %d; { %s r = (%s)(has%s_ ? %s_ : (%s)0); memcpy(b + k, &r, %d); k += %d; }' % (n, bit, raw, raw, n, n, ct, w, w))
            ok = '((m >> %d) & 1)' % i
            if kind == 'enum': ok += ' & %s(r)' % ((name + '_' + ty + '_IsValid') if ty in local else ty + '_IsValid')
            o_ = 'if (in.size() - p < %d) return false; { %s r; memcpy(&r, in.data() + p, %d); p += %d; has%s_ = (%s) != 0; %s_ = has%s_ ? (%s)r : %s_; }' % (w, raw, w, w, n, ok, n, n, ct, n)
            rd.append(o_)
    tot = 2 + sum(8 for f in fs)
    o('  %s() %s%s {}' % (name, ': ' if init else '', ', '.join(init)))
    o('  %s(const %s& x) %s%s { CopyFrom(x); } %s& operator=(const %s& x) { if (this != &x) CopyFrom(x); return *this; }' % (name, name, ': ' if init else '', ', '.join(init), name, name))
    o('  ~%s() { Clear(); }' % name)
    o('  ::google::protobuf::Message* New() const { return new %s; }' % name)
    o('  static const %s& default_instance() { static %s d; return d; }' % (name, name))
    o('  void Clear() { %s }' % ' '.join(cl))
    o('  bool IsInitialized() const { return %s; }' % (' && '.join(req) if req else 'true'))
    if simple:
        o('  bool sx_write(std::string* o) const { char b[%d]; int k = 2; unsigned m = 0; %s b[0] = (char)m; b[1] = (char)(m >> 8); o->append(b, k); %s return true; }' % (tot, ' '.join(wr), ' '.join(wrs)))
        o('  bool sx_read(const std::string& in) { size_t p = 2; if (in.size() < 2) return false; unsigned m = (unsigned char)in[0] | ((unsigned char)in[1] << 8); if (m >> %d) return false; %s %s return p == in.size(); }' % (len(fs), ' '.join(rd), ' '.join(rds)))
        o('  void CopyFrom(const ::google::protobuf::Message& m) { CopyFrom((const %s&)m); }' % name)
        cp = ' '.join('has%s_ = x.has%s_; %s_ = x.%s_;' % (n, n, n, n) for _, _, n, _ in fs)
        o('  void CopyFrom(const %s& x) { %s }' % (name, cp))
    else:
        cp = []
        for lab, ty, n, d in fs:
            k = 'msg' if not (ty in CPP or ty in enums or ty in local) else 'v'
            if lab == 'repeated': cp.append(('for (size_t i = 0; i < x.%s_r.size(); i++) add_%s()->CopyFrom(*x.%s_r[i]);' % (n, n, n)) if k == 'msg' else '%s_r = x.%s_r;' % (n, n))
            elif k == 'msg': cp.append('if (x.has%s_) mutable_%s()->CopyFrom(x.%s());' % (n, n, n))
            else: cp.append('has%s_ = x.has%s_; %s_ = x.%s_;' % (n, n, n, n))
        o('  void CopyFrom(const ::google::protobuf::Message& m) { CopyFrom((const %s&)m); }' % name)
        out_late.append('inline void %s::CopyFrom(const %s& x) { Clear(); %s }' % (name, name, ' '.join(cp)))
        o('  void CopyFrom(const %s& x);' % name)
    o('};')

out_late, ENUMS = [], {}

def emit_svc(out, name, body, pkg):
    ms = re.findall(r'rpc\s+(\w+)\s*\(\s*([\w.]+)\s*\)\s*returns\s*\(\s*([\w.]+)\s*\)', body)
    out.extend(out_late); out_late.clear()
    o = out.append
    o('class %s_Stub;' % name)
    o('class %s : public ::google::protobuf::Service { public: typedef %s_Stub Stub;' % (name, name))
    o('  static ::google::protobuf::ServiceDescriptor* sx_desc() { static ::google::protobuf::ServiceDescriptor* d = 0; if (!d) { d = new ::google::protobuf::ServiceDescriptor; d->name_ = "%s"; d->full_ = "%s.%s"; const char* n[] = {%s}; for (int i = 0; i < %d; i++) { ::google::protobuf::MethodDescriptor* m = new ::google::protobuf::MethodDescriptor; m->name_ = n[i]; m->full_ = d->full_ + "." + n[i]; m->index_ = i; m->svc_ = d; d->m_.push_back(m); } } return d; }' % (name, pkg, name, ', '.join('"%s"' % m[0] for m in ms), len(ms)))
    o('  static const ::google::protobuf::ServiceDescriptor* descriptor() { return sx_desc(); } const ::google::protobuf::ServiceDescriptor* GetDescriptor() { return sx_desc(); }')
    for m, a, b in ms: o('  virtual void %s(::google::protobuf::RpcController* c, const %s*, %s*, ::google::protobuf::Closure* done) { c->SetFailed("Method %s() not implemented."); done->Run(); }' % (m, a, b, m))
    o('  void CallMethod(const ::google::protobuf::MethodDescriptor* md, ::google::protobuf::RpcController* c, const ::google::protobuf::Message* q, ::google::protobuf::Message* r, ::google::protobuf::Closure* done) { switch (md->index()) { %s } }' % ' '.join('case %d: %s(c, (const %s*)q, (%s*)r, done); break;' % (i, m, a, b) for i, (m, a, b) in enumerate(ms)))
    o('  const ::google::protobuf::Message& GetRequestPrototype(const ::google::protobuf::MethodDescriptor* md) const { switch (md->index()) { %s } return %s::default_instance(); }' % (' '.join('case %d: return %s::default_instance();' % (i, a) for i, (m, a, b) in enumerate(ms)), ms[0][1]))
    o('  const ::google::protobuf::Message& GetResponsePrototype(const ::google::protobuf::MethodDescriptor* md) const { switch (md->index()) { %s } return %s::default_instance(); }' % (' '.join('case %d: return %s::default_instance();' % (i, b) for i, (m, a, b) in enumerate(ms)), ms[0][2]))
    o('};')
    o('class %s_Stub : public %s { public: ::google::protobuf::RpcChannel* ch_; %s_Stub(::google::protobuf::RpcChannel* c) : ch_(c) {}' % (name, name, name))
    for i, (m, a, b) in enumerate(ms): o('  void %s(::google::protobuf::RpcController* c, const %s* q, %s* r, ::google::protobuf::Closure* done) { ch_->CallMethod(sx_desc()->m_[%d], c, q, r, done); }' % (m, a, b, i))
    o('};')

def generate(repo, outdir):
    src = os.path.join(repo, 'src')
    for p in ('rpc_option', 'rpc_meta', 'builtin_service'):
        out_late.clear()
        t = gen(os.path.join(src, 'sofa/pbrpc', p + '.proto'), src)
        if out_late:
            raise SystemExit('protogen: late definitions without a service in ' + p)
        d = os.path.join(outdir, 'sofa/pbrpc'); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, p + '.pb.h')
        if not os.path.exists(f) or open(f).read() != t: open(f, 'w').write(t)

if __name__ == '__main__': generate(sys.argv[1], sys.argv[2])
