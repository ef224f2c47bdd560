"""Textual LLVM-18 IR parser (the subset clang -O0 + canonicalisation emits for the verified functions)."""
import re
from collections import OrderedDict

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# scalar: ('i',w) ('ptr',) ('void',) ('vec',n,elt) ('arr',n,elt) ('struct',name,[fields]) ('fp',name) ('label',)
class Types:
    def __init__(self):
        self.named = {}
    def resolve(self, t):
        if t[0] == 'named':
            f = self.named.get(t[1])
            return ('struct', t[1], f if f is not None else None)
        return t

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[\w.$-]+))|(?P<glob>@(?:"[^"]*"|[\w.$-]+))|(?P<meta>![\w.]*)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLMH]+)|(?P<attr>\#\d+)|(?P<dots>\.\.\.)|(?P<word>[A-Za-z_$][\w.$]*)|(?P<punct><\{|\}>|[()\[\]{}<>,=*:|]))''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            if s[pos:].strip() == '':
                break
            raise IRError('token: ' + s[pos:pos+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out

def unq(name):
    # %"foo bar" -> %foo bar
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name

PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext','inreg','returned','immarg',
  'dead_on_unwind','writable','nofree','noreturn','nounwind','swiftself','nest','allocptr','allocalign','inbounds','nuw','nsw','exact','disjoint','dso_local','local_unnamed_addr','unnamed_addr','fastcc','ccc','tail','musttail','notail','volatile','atomic','dllimport'}
PARAM_ATTRS_ARG = {'align','dereferenceable','dereferenceable_or_null','byval','sret','range','captures','memory','elementtype','preallocated','inalloca','byref','nofpclass'}

class P:
    def __init__(self, toks, line=''):
        self.t = toks; self.i = 0; self.line = line
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        x = self.peek(); self.i += 1; return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise IRError('expected %r got %r in %s' % (v, x, self.line[:200]))
    def eof(self):
        return self.i >= len(self.t)
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v in ('void',):
                t = ('void',)
            elif v in ('float','double','half','x86_fp80','fp128'):
                t = ('fp', v)
            elif v in ('label','metadata','token'):
                t = (v,)
            else:
                raise IRError('type? %s in %s' % (v, self.line[:160]))
        elif k == 'loc':
            t = ('named', unq(v)[1:])
        elif v == '[' :
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.peek()[0] == 'num':
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
            else:
                raise IRError('type <')
        elif v in ('{', '<{'):
            fs = []
            end = '}' if v == '{' else '}>'
            while not self.accept(end):
                fs.append(self.type()); self.accept(',')
            t = ('struct', None, tuple(fs))
        else:
            raise IRError('type? %r in %s' % (v, self.line[:160]))
        # function type  "ty (args...)"
        if self.peek()[1] == '(' and t != ('label',) and self._functype_ahead():
            self.expect('(')
            depth = 1
            while depth:
                x = self.next()[1]
                if x == '(': depth += 1
                elif x == ')': depth -= 1
            t = ('fn', t)
        return t
    def _functype_ahead(self):
        # a '(' right after a type within a call instruction denotes a function type
        return True
    def attrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                at[v] = True; self.next()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.accept('('):
                    if v in ('byval', 'sret', 'byref', 'elementtype'):
                        at[v] = self.type(); self.expect(')')
                    else:
                        d = 1; s = []
                        while d:
                            x = self.next()[1]
                            if x == '(': d += 1
                            elif x == ')': d -= 1
                            s.append(x)
                        at[v] = s[:-1]
                else:
                    at[v] = self.next()[1]
            elif k == 'attr' or (k == 'str'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return at
    def value(self, ty):
        """operand of known type"""
        k, v = self.next()
        if k == 'loc': return ('loc', unq(v)[1:])
        if k == 'glob': return ('glob', unq(v)[1:])
        if k == 'num':
            if ty[0] == 'fp': return ('fpconst', v)
            return ('int', int(v, 0) if not v.startswith('0x') else v)
        if k == 'meta': 
            return ('meta', v)
        if k == 'str': return ('cstr', v)
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == '<' :
            es = []
            while not self.accept('>'):
                t = self.type(); es.append(self.value(t)); self.accept(',')
            return ('vecc', es)
        if v == '[':
            es = []
            while not self.accept(']'):
                t = self.type(); es.append((t, self.value(t))); self.accept(',')
            return ('arrc', es)
        if v in ('{', '<{'):
            end = '}' if v == '{' else '}>'
            es = []
            while not self.accept(end):
                t = self.type(); es.append((t, self.value(t))); self.accept(',')
            return ('structc', es)
        if v == 'getelementptr':
            self.attrs_gep()
            self.expect('(')
            sty = self.type(); self.expect(',')
            bt = self.type(); b = self.value(bt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type(); idx.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', sty, b, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('add','sub','mul','and','or','xor','shl'):
            self.attrs(); self.expect('(')
            t=self.type(); a=self.value(t); self.expect(','); t2=self.type(); b=self.value(t2); self.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'asm':
            return ('asm', None)
        raise IRError('value %r in %s' % (v, self.line[:200]))
    def attrs_gep(self):
        while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            self.next()

class Instr:
    __slots__ = ('op','res','ty','a','line')
    def __init__(self, op, res, ty, a, line):
        self.op=op; self.res=res; self.ty=ty; self.a=a; self.line=line
    def __repr__(self): return self.line.strip()

class Block:
    def __init__(self, name):
        self.name=name; self.ins=[]; self.phis=[]
        self.succ=[]; self.pred=[]

class Function:
    def __init__(self, name):
        self.name=name; self.params=[]; self.blocks=OrderedDict(); self.ret=None; self.lines=[]
        self.linkage=''

class Module:
    def __init__(self):
        self.types=Types(); self.funcs=OrderedDict(); self.decls={}; self.globals={}
        self._raw={}
    def func(self, name):
        f=self.funcs.get(name)
        if f is None and name in self._raw:
            f=parse_function(self, *self._raw[name])
            self.funcs[name]=f
        return f

def parse_module(text):
    m=Module()
    lines=text.split('\n')
    i=0
    while i < len(lines):
        l=lines[i]
        if l.startswith('%') and ' = type ' in l:
            name,rest=l.split(' = type ',1)
            name=unq(name.strip())[1:]
            if rest.strip()=='opaque':
                m.types.named[name]=None
            else:
                m.types.named[name]=P(tokenize(rest),l).type()[2]
        elif l.startswith('define '):
            j=i
            while lines[j]!='}': j+=1
            mm=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
            nm=mm.group(1).strip('"')
            m._raw[nm]=(l,lines[i+1:j])
            i=j
        elif l.startswith('declare '):
            mm=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
            m.decls[mm.group(1).strip('"')]=l
        elif l.startswith('@'):
            mm=re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$',l)
            if mm: m.globals[mm.group(1).strip('"')]=mm.group(2)
        i+=1
    return m

def parse_function(m, head, body):
    mm=re.search(r'@("[^"]*"|[\w.$-]+)\(',head)
    f=Function(mm.group(1).strip('"'))
    pre=head[:mm.start()]
    f.linkage='linkonce' if 'linkonce' in pre else ('internal' if ('internal' in pre or 'private' in pre) else 'external')
    # return type: last type tokens before the name
    tk=tokenize(pre)
    p=P(tk,head)
    while True:
        k,v=p.peek()
        if k=='word' and (v in PARAM_ATTRS_ARG or v in PARAM_ATTRS):
            p.attrs()
        elif k=='word' and not re.fullmatch(r'i\d+|ptr|void|float|double|x86_fp80',v):
            p.next()
        else: break
    f.ret=p.type()
    # params
    p=P(tokenize(head[mm.end():].split(' personality ')[0]),head)
    n=0
    while not p.accept(')'):
        if p.accept('...'): continue
        t=p.type(); at=p.attrs()
        if p.peek()[0]=='loc': nm=unq(p.next()[1])[1:]
        else: nm=str(n)
        f.params.append((t,nm,at)); n+=1
        p.accept(',')
    f.lines=body
    # blocks
    # entry label = number of params (unnamed) unless first line is label
    cur=None
    entry=str(len([x for x in f.params]))
    k=0
    while k < len(body):
        l=body[k]
        if not l.strip() or l.strip().startswith(';'): k+=1; continue
        lm=re.match(r'^("[^"]*"|[\w.$-]+):',l)
        if lm:
            nm=lm.group(1).strip('"')
            cur=Block(nm); f.blocks[nm]=cur
            k+=1; continue
        if cur is None:
            cur=Block(entry); f.blocks[entry]=cur
        s=l
        st=s.strip()
        if re.match(r'(%\S+ = )?(invoke|switch|landingpad)\b',st):
            # multi-line
            if 'switch' in st and st.rstrip().endswith('['):
                while not re.match(r'\](,.*)?$',body[k].strip()):
                    k+=1; s+=' '+body[k].strip()
            elif re.match(r'(%\S+ = )?invoke\b',st):
                if ' to label' not in s:
                    k+=1; s+=' '+body[k].strip()
            elif 'landingpad' in st:
                while k+1<len(body) and re.match(r'\s+(cleanup|catch|filter)',body[k+1]):
                    k+=1; s+=' '+body[k].strip()
        cur.ins.append(parse_instr(s))
        k+=1
    for b in f.blocks.values():
        b.phis=[x for x in b.ins if x.op=='phi']
        b.ins=[x for x in b.ins if x.op!='phi']
        t=b.ins[-1]
        if t.op=='br': b.succ=[t.a['t']] if t.a['c'] is None else [t.a['t'],t.a['f']]
        elif t.op=='switch': b.succ=[t.a['d']]+[x[1] for x in t.a['cases']]
        elif t.op=='invoke': b.succ=[t.a['normal']]
        else: b.succ=[]
    # drop unreachable (exception) blocks
    seen=set(); st=[next(iter(f.blocks))]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); st.extend(f.blocks[x].succ)
    for x in list(f.blocks):
        if x not in seen: del f.blocks[x]
    for b in f.blocks.values():
        for s in b.succ:
            if b.name not in f.blocks[s].pred: f.blocks[s].pred.append(b.name)
    return f

BIN={'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv'}
CAST={'zext','sext','trunc','bitcast','ptrtoint','inttoptr','fpext','fptrunc','uitofp','sitofp','fptoui','fptosi','addrspacecast'}

def parse_instr(l):
    res=None
    s=l.strip()
    m=re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = (.*)$',s,re.S)
    if m:
        res=unq(m.group(1))[1:]; s=m.group(2)
    # strip trailing metadata
    s=re.sub(r',\s*![\w.]+ !\d+','',s)
    p=P(tokenize(s),l)
    k,op=p.next()
    while op in ('tail','musttail','notail'):
        k,op=p.next()
    if op in BIN:
        fl=p.attrs()
        while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
        t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Instr('bin',res,t,{'op':op,'a':a,'b':b,'fl':fl},l)
    if op=='fneg':
        t=p.type(); a=p.value(t); return Instr('other',res,t,{},l)
    if op in CAST:
        p.accept('nneg')
        t=p.type(); a=p.value(t); p.expect('to'); t2=p.type()
        return Instr('cast',res,t2,{'op':op,'a':a,'from':t},l)
    if op=='icmp':
        p.accept('samesign')
        pred=p.next()[1]; t=p.type(); a=p.value(t); p.expect(','); b=p.value(t)
        return Instr('icmp',res,t,{'p':pred,'a':a,'b':b},l)
    if op=='fcmp': return Instr('other',res,('i',1),{},l)
    if op=='load':
        p.accept('volatile'); t=p.type(); p.expect(','); pt=p.type(); a=p.value(pt)
        return Instr('load',res,t,{'p':a},l)
    if op=='store':
        p.accept('volatile'); t=p.type(); v=p.value(t); p.expect(','); pt=p.type(); a=p.value(pt)
        return Instr('store',None,t,{'v':v,'p':a},l)
    if op=='alloca':
        t=p.type(); n=None
        if p.accept(','):
            if p.peek()[1]!='align':
                nt=p.type(); n=p.value(nt)
        return Instr('alloca',res,t,{'n':n},l)
    if op=='getelementptr':
        p.attrs_gep()
        sty=p.type(); p.expect(','); bt=p.type(); b=p.value(bt); idx=[]
        while p.accept(','):
            t=p.type(); idx.append((t,p.value(t)))
        return Instr('gep',res,sty,{'b':b,'idx':idx},l)
    if op=='phi':
        t=p.type(); inc=[]
        while True:
            p.expect('['); v=p.value(t); p.expect(','); b=unq(p.next()[1])[1:]; p.expect(']'); inc.append((v,b))
            if not p.accept(','): break
        return Instr('phi',res,t,{'inc':inc},l)
    if op=='select':
        ct=p.type(); c=p.value(ct); p.expect(','); t=p.type(); a=p.value(t); p.expect(','); t2=p.type(); b=p.value(t2)
        return Instr('select',res,t,{'c':c,'a':a,'b':b},l)
    if op=='br':
        if p.peek()[1]=='label':
            p.next(); return Instr('br',None,None,{'c':None,'t':unq(p.next()[1])[1:]},l)
        t=p.type(); c=p.value(t); p.expect(','); p.expect('label'); a=unq(p.next()[1])[1:]; p.expect(','); p.expect('label'); b=unq(p.next()[1])[1:]
        return Instr('br',None,None,{'c':c,'t':a,'f':b},l)
    if op=='switch':
        t=p.type(); v=p.value(t); p.expect(','); p.expect('label'); d=unq(p.next()[1])[1:]; p.expect('[')
        cs=[]
        while not p.accept(']'):
            ct=p.type(); cv=p.value(ct); p.expect(','); p.expect('label'); cs.append((cv[1],unq(p.next()[1])[1:]))
        return Instr('switch',None,t,{'v':v,'d':d,'cases':cs},l)
    if op=='ret':
        t=p.type(); v=None
        if t[0]!='void': v=p.value(t)
        return Instr('ret',None,t,{'v':v},l)
    if op in ('call','invoke'):
        while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
        p.attrs()
        t=p.type()
        if t[0]=='fn': t=t[1]
        if p.peek()[1]=='asm':
            return Instr('asm',res,t,{'text':s},l)
        f=p.value(('ptr',)); p.expect('(')
        args=[]
        while not p.accept(')'):
            at=p.type(); aa=p.attrs()
            if at[0]=='metadata':
                # skip
                while p.peek()[1] not in (',',')'): p.next()
                v=('meta',None)
            else: v=p.value(at)
            args.append((at,v,aa)); p.accept(',')
        a={'f':f,'args':args}
        if op=='invoke':
            mm=re.search(r'to label (%(?:"[^"]*"|[\w.$-]+)) unwind label (%(?:"[^"]*"|[\w.$-]+))',s)
            a['normal']=unq(mm.group(1))[1:]; a['unwind']=unq(mm.group(2))[1:]
        return Instr(op,res,t,a,l)
    if op=='extractelement':
        t=p.type(); v=p.value(t); p.expect(','); it=p.type(); i=p.value(it)
        return Instr('extractelement',res,t,{'v':v,'i':i},l)
    if op=='insertelement':
        t=p.type(); v=p.value(t); p.expect(','); et=p.type(); e=p.value(et); p.expect(','); it=p.type(); i=p.value(it)
        return Instr('insertelement',res,t,{'v':v,'e':e,'i':i},l)
    if op=='shufflevector':
        t=p.type(); a=p.value(t); p.expect(','); t2=p.type(); b=p.value(t2); p.expect(','); mt=p.type(); mk=p.value(mt)
        return Instr('shufflevector',res,t,{'a':a,'b':b,'m':mk,'mt':mt},l)
    if op=='extractvalue':
        t=p.type(); v=p.value(t); ix=[]
        while p.accept(','): ix.append(int(p.next()[1]))
        return Instr('extractvalue',res,t,{'v':v,'ix':ix},l)
    if op=='insertvalue':
        t=p.type(); v=p.value(t); p.expect(','); et=p.type(); e=p.value(et); ix=[]
        while p.accept(','): ix.append(int(p.next()[1]))
        return Instr('insertvalue',res,t,{'v':v,'e':e,'ix':ix},l)
    if op=='freeze':
        t=p.type(); v=p.value(t)
        return Instr('freeze',res,t,{'a':v},l)
    if op in ('unreachable','resume','landingpad'):
        return Instr(op,res,None,{},l)
    return Instr('other',res,None,{'op':op},l)
