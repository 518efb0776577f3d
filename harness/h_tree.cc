// P08: the XML document layer: tree model, round trips, independent reader and writer, edit histories
#include "pbt.h"
#include "gearxml/tinyxml.h"
#include <fstream>
#include <memory>
#include <list>
using namespace pbt;
using std::string; using std::vector; using std::pair;

enum Kind { ELEM, TEXT, COMM, UNKN, DECL };
struct M {
  Kind k = ELEM; string v;
  vector<pair<string,string>> at;   // elements
  string ver, enc, sta;             // declarations
  vector<M> ch;
  bool operator==(const M& o) const { return k==o.k && v==o.v && at==o.at && ver==o.ver && enc==o.enc && sta==o.sta && ch==o.ch; }
};
static string esc(const string& s) { string r; char b[8]; for (unsigned char c : s) { if (c<32||c>126) { sprintf(b,"\\x%02x",c); r+=b; } else r+=c; } return r; }
static string show(const M& m, int d=0) {
  string r(d*2,' ');
  const char* n[]={"E","T","C","U","D"}; r+=n[m.k]; r+=" '"+esc(m.v)+"'";
  for (auto& a : m.at) r+=" ["+esc(a.first)+"]='"+esc(a.second)+"'";
  if (m.k==DECL) r+=" v='"+m.ver+"' e='"+m.enc+"' s='"+m.sta+"'";
  r+="\n"; for (auto& c : m.ch) r+=show(c,d+1); return r;
}
static string showDoc(const vector<M>& d) { string r; for (auto& m : d) r+=show(m); return r; }

// ---------- generators ----------
enum Enc { BYTES, UTF8 };
static string utf8(unsigned long u) {
  string s;
  if (u<0x80) s+=(char)u;
  else if (u<0x800) { s+=(char)(0xc0|(u>>6)); s+=(char)(0x80|(u&63)); }
  else if (u<0x10000) { s+=(char)(0xe0|(u>>12)); s+=(char)(0x80|((u>>6)&63)); s+=(char)(0x80|(u&63)); }
  else { s+=(char)(0xf0|(u>>18)); s+=(char)(0x80|((u>>12)&63)); s+=(char)(0x80|((u>>6)&63)); s+=(char)(0x80|(u&63)); }
  return s;
}
static string genChar(Gen& g, Enc e) {
  switch (g.draw(9)) {
    case 0: case 1: return string(1,(char)('a'+g.draw(26)));
    case 2: return string(1,g.pick<char>({'0','9','5','.',',','-','+','_','=',';','#','x',':','/','!','?','[',']','(',')','{','%','|','~','^','@','*','$','\\','`'}));
    case 3: case 4: return string(1,g.pick<char>({'&','<','>','"','\''}));
    case 5: return string(1+g.draw(3),' ');
    case 6: return string(1,(char)g.integer(1,31));
    case 7: if (e==BYTES) return string(1,(char)g.integer(127,255));
            { unsigned long u; do { switch (g.draw(3)) { case 0: u=g.integer(0x80,0x7ff); break; case 1: u=g.integer(0x800,0xffff); break; default: u=g.integer(0x10000,0x10ffff); }
                if (u>=0xd800&&u<=0xdfff) u=0xe000+(u&0xff); if (u==0xfeff||u>=0xfffe&&u<=0xffff) u=0x20ac; } while(0); return utf8(u); }
    default: return g.pick<string>({"&amp;","&lt;","&#65;","&#x41;","&#x7a;","&#x","&#x4","&#xG;","&#x;","&#","&am","]]>","-->","<!--","</a>","/>","&&","&;","\r\n","\n\r","?>"});
  }
}
static string genStr(Gen& g, Enc e, int max=12) { string s; int n=g.size(0,max); for (int i=0;i<n;i++) s+=genChar(g,e); if (g.chance(1,60)) { string t=s.empty()?"q ":s; while (s.size()<2500) s+=t; } 
  return s; }
static string genName(Gen& g, Enc e) {
  if (g.chance(1,2)) return g.pick<string>({"a","b","layer","gear","name","c"});
  string s=g.str("abcXYZ_",1,2); s+=g.str("abcXYZ019_-.:",0,6);
  if (g.chance(1,6)) { if (e==UTF8) s+=utf8(g.integer(0xa1,0x7ff)); else s+=(char)g.integer(128,255); }
  return s;
}
static string genComment(Gen& g, Enc e) {
  string s=genStr(g,e); size_t p; while ((p=s.find("-->"))!=string::npos) s.erase(p,2);
  if (g.chance(1,4)) s+=g.pick<string>({"-"," - ","&amp;","&lt;b&gt;","'\"","&#x41;","&"});
  while ((p=s.find("-->"))!=string::npos) s.erase(p,2);
  return s;
}
static string genUnknown(Gen& g) {
  string s=g.pick<string>({"!DOCTYPE gear","!","?php","1a"," a","!-x","?xm","&b","!ENTITY"}); s+=g.str("abc \"'<&;=1\n",0,8); 
  return s;
}
static void genAttrs(Gen& g, Enc e, M& m) {
  int n=g.many(0,5,60,80);
  for (int i=0;i<n;i++) { string k=genName(g,e); bool dup=false; for (auto& a : m.at) dup|=a.first==k; if (!dup) m.at.push_back({k,genStr(g,e)}); }
}
static M genElem(Gen& g, Enc e, int depth);
static M genNode(Gen& g, Enc e, int depth) {
  M m;
  switch (g.draw(6)) {
    case 0: m.k=TEXT; m.v=genStr(g,e); return m;
    case 1: m.k=g.chance(1,3)?UNKN:COMM; m.v=m.k==COMM?genComment(g,e):genUnknown(g); return m;
    default: return genElem(g,e,depth);
  }
}
static M genElem(Gen& g, Enc e, int depth) {
  M m; m.k=ELEM; m.v=genName(g,e); genAttrs(g,e,m);
  if (depth>0) { int n=g.many(0,4,60,120); for (int i=0;i<n;i++) m.ch.push_back(genNode(g,e,depth-1)); }
  if (g.chance(1,30)) { int n=g.integer(5,60); M* p=&m; for (int i=0;i<n;i++) { p->ch.push_back(M()); p=&p->ch.back(); p->v="n"; } }   // deep chain
  return m;
}
struct Doc { vector<M> ch; Enc e=BYTES; };
static Doc genDoc(Gen& g) {
  Doc d;
  int decl=g.draw(4);
  if (decl) {
    M m; m.k=DECL; m.ver=g.pick<string>({"1.0","1.1",""});
    if (decl==1) { m.enc=""; d.e=UTF8; } else if (decl==2) { m.enc=g.pick<string>({"UTF-8","utf-8","UTF8"}); d.e=UTF8; }
    else m.enc=g.pick<string>({"ISO-8859-1","ascii","latin1"});
    m.sta=g.pick<string>({"","yes","no"});
    d.ch.push_back(m);
  }
  auto misc=[&]{ int n=g.size(0,2); for (int i=0;i<n;i++) { M m; if (g.chance(1,3)) { m.k=UNKN; m.v=genUnknown(g); } else { m.k=COMM; m.v=genComment(g,d.e); } d.ch.push_back(m); } };
  misc(); d.ch.push_back(genElem(g,d.e,g.integer(0,4))); misc();
  if (g.chance(1,8)) d.ch.push_back(genElem(g,d.e,1));
  return d;
}
// ---------- the documented normal form ----------
static bool isHex(char c) { return isxdigit((unsigned char)c); }
// a text that spells a complete hexadecimal character reference stands for that character
static string decodeRefs(const string& s, Enc e) {
  string r;
  for (size_t i=0;i<s.size();) {
    if (s.compare(i,3,"&#x")==0) { size_t j=i+3; unsigned long u=0; while (j<s.size()&&isHex(s[j])) { u=u*16+strtoul(string(1,s[j]).c_str(),0,16); ++j; }
      if (j>i+3 && j<s.size() && s[j]==';') { r+= e==UTF8 ? utf8(u) : string(1,(char)u); i=j+1; continue; } }
    r+=s[i++];
  }
  if (r.find('\0')!=string::npos) throw Discard();
  return r;
}
static string condense(const string& s) { string r; bool sp=false; for (char c : s) { if (c==' ') { sp=!r.empty(); continue; } if (sp) r+=' '; sp=false; r+=c; } return r; }
static bool blank(const string& s) { for (char c : s) if (!isspace((unsigned char)c)) return false; return true; }
static M norm(const M& m, Enc e) {
  M r=m; for (auto& a : r.at) a.second=decodeRefs(a.second,e);
  r.ch.clear();
  for (size_t i=0;i<m.ch.size();) {
    if (m.ch[i].k==TEXT) { string t; while (i<m.ch.size()&&m.ch[i].k==TEXT) t+=decodeRefs(m.ch[i++].v,e); t=condense(t); if (!blank(t)) { M x; x.k=TEXT; x.v=t; r.ch.push_back(x); } }
    else r.ch.push_back(norm(m.ch[i++],e));
  }
  return r;
}
static vector<M> norm(const Doc& d) { vector<M> r; for (auto& m : d.ch) r.push_back(norm(m,d.e)); return r; }

// ---------- library trees ----------
static gear::TiXmlNode* make(const M& m, Gen* g) {
  switch (m.k) {
    case TEXT: return new gear::TiXmlText(m.v);
    case COMM: { auto* c=new gear::TiXmlComment(); c->SetValue(m.v); return c; }
    case UNKN: { auto* c=new gear::TiXmlUnknown(); c->SetValue(m.v); return c; }
    case DECL: return new gear::TiXmlDeclaration(m.ver,m.enc,m.sta);
    default: break;
  }
  auto* e=new gear::TiXmlElement(m.v);
  for (auto& a : m.at) e->SetAttribute(a.first,a.second);
  for (auto& c : m.ch) { gear::TiXmlNode* n=make(c,g); if (g && g->boolean()) { e->InsertEndChild(*n); delete n; } else e->LinkEndChild(n); }
  return e;
}
static void fill(gear::TiXmlDocument& d, const vector<M>& ch, Gen* g) { for (auto& c : ch) d.LinkEndChild(make(c,g)); }
static M view(const gear::TiXmlNode* n) {
  M m;
  if (auto* d=n->ToDeclaration()) { m.k=DECL; m.ver=d->Version(); m.enc=d->Encoding(); m.sta=d->Standalone(); }
  else if (n->ToComment()) { m.k=COMM; m.v=n->Value(); }
  else if (n->ToText()) { m.k=TEXT; m.v=n->Value(); }
  else if (n->ToUnknown()) { m.k=UNKN; m.v=n->Value(); }
  else { m.k=ELEM; m.v=n->Value(); auto* e=n->ToElement(); if (!e) fail("node of no known type");
    for (auto* a=e->FirstAttribute(); a; a=a->Next()) m.at.push_back({a->Name(),a->Value()});
    for (auto* c=n->FirstChild(); c; c=c->NextSibling()) m.ch.push_back(view(c)); }
  return m;
}
static vector<M> viewDoc(const gear::TiXmlDocument& d) { vector<M> r; for (auto* c=d.FirstChild(); c; c=c->NextSibling()) r.push_back(view(c)); return r; }
static string slurp(const string& f) { std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& s) { std::ofstream o(f,std::ios::binary); o<<s; }
static size_t count(const M& m) { size_t n=1+m.at.size(); for (auto& c : m.ch) n+=count(c); return n; }
static void same(Gen& g, const vector<M>& got, const vector<M>& want, const char* what) {
  ++g.evals; if (!(got==want)) fail(what,": tree differs\nexpected\n",showDoc(want),"got\n",showDoc(got));
}

// ---------- independent strict reader of what the library wrote ----------
struct Bad { string w; };
struct Rd {
  const string& s; size_t i=0; Enc e;
  bool at(const char* t) { return s.compare(i,strlen(t),t)==0; }
  void ws() { while (i<s.size() && strchr(" \n\r\t",s[i])) ++i; }
  string until(const char* t) { size_t p=s.find(t,i); if (p==string::npos) throw Bad{string("no ")+t}; string r=s.substr(i,p-i); i=p+strlen(t); return r; }
  string name() { size_t j=i; while (i<s.size() && (isalnum((unsigned char)s[i])||strchr("_-.:",s[i])||(unsigned char)s[i]>127)) ++i; if (i==j) throw Bad{"name"}; return s.substr(j,i-j); }
  string dec(const string& t) { string r; for (size_t k=0;k<t.size();) { if (t[k]=='<') throw Bad{"raw <"}; if (t[k]!='&') { r+=t[k++]; continue; }
      size_t q=t.find(';',k); if (q==string::npos) throw Bad{"raw &"}; string n=t.substr(k+1,q-k-1); k=q+1;
      if (n=="amp") r+='&'; else if (n=="lt") r+='<'; else if (n=="gt") r+='>'; else if (n=="quot") r+='"'; else if (n=="apos") r+='\'';
      else if (n.size()>2&&n[0]=='#'&&n[1]=='x') { unsigned long u=strtoul(n.c_str()+2,0,16); r+= e==UTF8?utf8(u):string(1,(char)u); } else throw Bad{"reference &"+n+";"}; } return r; }
  void attrs(vector<pair<string,string>>& v) { for (;;) { size_t j=i; ws(); if (at("/")||at(">")||at("?")) return; if (i==j) throw Bad{"attribute glued"}; string n=name(); if (s[i++]!='=') throw Bad{"="}; char q=s[i++]; if (q!='"'&&q!='\'') throw Bad{"quote"};
      string x=until(q=='"'?"\"":"'"); v.push_back({n,dec(x)}); } }
  void content(vector<M>& ch, const string* end) {
    for (;;) {
      size_t p=s.find('<',i); string t=s.substr(i,p==string::npos?p:p-i);
      string w; bool sp=false; for (char c : t) { if (strchr(" \n\r\t",c)) sp=true; else { if (sp&&!w.empty()) w+=' '; sp=false; w+=c; } }   // raw white space is condensed
      w=dec(w); if (!blank(w)) { if (!end) throw Bad{"text outside"}; M m; m.k=TEXT; m.v=w; ch.push_back(m); }
      if (p==string::npos) { if (end) throw Bad{"unclosed"}; return; }
      i=p;
      if (at("</")) { if (!end) throw Bad{"stray end"}; i+=2; if (name()!=*end || s[i++]!='>') throw Bad{"end tag"}; return; }
      M m;
      if (at("<!--")) { i+=4; m.k=COMM; m.v=until("-->"); }
      else if (at("<?xml")) { i+=5; m.k=DECL; vector<pair<string,string>> v; attrs(v); if (until(">")!="?") throw Bad{"?>"}; for (auto& a : v) (a.first=="version"?m.ver:a.first=="encoding"?m.enc:m.sta)=a.second; }
      else if (isalpha((unsigned char)s[i+1])||s[i+1]=='_'||(unsigned char)s[i+1]>127) { ++i; m.v=name(); attrs(m.at); if (at("/>")) i+=2; else { ++i; content(m.ch,&m.v); } }
      else { ++i; m.k=UNKN; m.v=until(">"); }
      ch.push_back(m);
    }
  }
};
static vector<M> readIndependently(const string& s, Enc e) { Rd r{s,0,e}; vector<M> v; r.content(v,nullptr); return v; }

PROP(tree_roundtrip, 20000, 600000) {
  Doc d=genDoc(g); vector<M> want=norm(d);
  { Doc w{want,d.e}; if (!(norm(w)==want)) g.discard(); }   // decoding one reference completed another
  g.note(showDoc(d.ch));
  size_t n=0; for (auto& m : d.ch) n+=count(m); g.nontrivial(n>=4); g.label(d.e==UTF8?"utf8":"bytes");
  string f=scratch()+"/t.xml", f2=scratch()+"/t2.xml";
  gear::TiXmlDocument a(f); fill(a,d.ch,&g);
  same(g,viewDoc(a),d.ch,"built tree");
  if (g.boolean()) REQUIRE(a.SaveFile(f)); else REQUIRE(a.SaveFile());
  same(g,viewDoc(a),d.ch,"tree after saving");
  string bytes=slurp(f);
  vector<M> ind; try { ind=readIndependently(bytes,d.e); } catch (Bad& b) { fail("written file is not well-formed: ",b.w,"\n",esc(bytes)); }
  same(g,ind,want,"written file read independently");
  gear::TiXmlDocument b; bool ok=b.LoadFile(f); REQUIRE(ok,b.ErrorDesc()," row ",b.ErrorRow(),"\n",esc(bytes)); REQUIRE(!b.Error());
  same(g,viewDoc(b),want,"saved and loaded");
  REQUIRE(b.SaveFile(f2)); string bytes2=slurp(f2);
  if (want==d.ch) REQUIRE(bytes2==bytes,"second save differs:\n",esc(bytes),"\n",esc(bytes2));
  gear::TiXmlDocument c(f2); REQUIRE(c.LoadFile()); same(g,viewDoc(c),want,"saved and loaded twice");
  REQUIRE(c.SaveFile(f)); REQUIRE(slurp(f)==bytes2,"third save differs");
  // loading into a used document replaces it
  REQUIRE(c.LoadFile(f2)); same(g,viewDoc(c),want,"loaded again into the same document");
}
// unformatted stream output, Parse from memory, operator>>
PROP(tree_stream, 10000, 300000) {
  Doc d=genDoc(g);
  std::function<void(vector<M>&)> fixc=[&](vector<M>& v) { for (auto& m : v) { if (m.k==COMM) while (m.v[0]=='>'||m.v.substr(0,2)=="->") m.v.erase(0,1); fixc(m.ch); } };
  fixc(d.ch);   // operator>> takes "<!-->" for a whole comment
  vector<M> upto; for (auto& m : d.ch) { upto.push_back(m); if (m.k==ELEM) break; }
  Doc du{upto,d.e}; vector<M> want=norm(du);
  g.note(showDoc(upto)); size_t n=0; for (auto& m : upto) n+=count(m); g.nontrivial(n>=4);
  gear::TiXmlDocument a; fill(a,d.ch,&g);
  std::ostringstream o; o<<a; string s; s<<a; REQ_EQ(esc(s),esc(o.str()));
  vector<M> ind; try { ind=readIndependently(s,d.e); } catch (Bad& b) { fail("streamed text is not well-formed: ",b.w,"\n",esc(s)); }
  same(g,ind,want,"streamed text read independently");
  gear::TiXmlDocument b; b.Parse(s.c_str()); REQUIRE(!b.Error(),b.ErrorDesc()," ",esc(s)); same(g,viewDoc(b),want,"streamed and parsed");
  gear::TiXmlDocument c; std::istringstream in(s+"<rest/>"); in>>c; REQUIRE(!c.Error(),c.ErrorDesc()); same(g,viewDoc(c),want,"streamed and read from the stream");
  string rest((std::istreambuf_iterator<char>(in)),{}); REQ_EQ(rest,string("<rest/>"));
}
// ---------- independent writer, free in its formatting ----------
static string refOf(Gen& g, unsigned char c) { char b[16]; switch (g.draw(3)) { case 0: sprintf(b,"&#%u;",c); break; case 1: sprintf(b,"&#x%x;",c); break; default: sprintf(b,"&#x%03X;",c); } return b; }
static bool MULTI=false;   // characters of several bytes may be written as references: the text is known to be UTF-8
static unsigned long ucsOf(const string& s) { unsigned char c=s[0]; unsigned long u= c<0xe0?c&31:c<0xf0?c&15:c&7; for (size_t i=1;i<s.size();i++) u=u<<6|((unsigned char)s[i]&63); return u; }
static string refOf(Gen& g, unsigned long u) { char b[32]; switch (g.draw(4)) { case 0: sprintf(b,"&#%lu;",u); break; case 1: sprintf(b,"&#x%lx;",u); break; case 2: sprintf(b,"&#%09lu;",u); break; default: sprintf(b,"&#x%07lX;",u); } return b; }
static size_t u8len(const string& s, size_t i) { unsigned char c=s[i]; size_t n= !MULTI||c<0xc0?1:c<0xe0?2:c<0xf0?3:4; return std::min(n,s.size()-i); }
static string wsp(Gen& g, bool need) { string s=g.str(" \n\t\r",need?1:0,2); if (need&&s.empty()) s=" "; return s; }
static string wval(Gen& g, const string& v, char q) {
  string r; for (size_t i=0,n; i<v.size(); i+=n) {
    unsigned char c=v[i]; n=u8len(v,i);
    if (n>1) r+=g.chance(1,3)?refOf(g,ucsOf(v.substr(i,n))):v.substr(i,n);
    else if (c=='&') r+=g.boolean()?"&amp;":refOf(g,c); else if (c=='<') r+=g.boolean()?"&lt;":refOf(g,c);
    else if (c=='>') r+=q?(g.draw(3)==0?string(">"):g.boolean()?"&gt;":refOf(g,c)):"&gt;";
    else if (c=='"') r+=(q=='\''&&g.boolean())?string("\""):g.boolean()?"&quot;":refOf(g,c);
    else if (c=='\'') r+=(q=='"'&&g.boolean())?string("'"):g.boolean()?"&apos;":refOf(g,c);
    else if (c<32) r+= (q && g.draw(3)==0) ? string(1,(char)c) : refOf(g,c);
    else if (c<127 && c!=' ' && g.chance(1,10)) r+=refOf(g,c);
    else r+=c; }
  return r;
}
static bool wordy(const string& v) { if (v.empty()) return false; for (unsigned char c : v) if (!isalnum(c)&&c!='.'&&c!='-'&&c!='_') return false; return true; }
static string wattr(Gen& g, const string& n, const string& v) {
  string r=wsp(g,true)+n+wsp(g,false)+"="+wsp(g,false); char q=g.boolean()?'"':'\'';
  if (wordy(v)&&g.chance(1,8)) return r+v+" ";       // the documented leniency: no quotes
  return r+q+wval(g,v,q)+q;
}
static string wnode(Gen& g, const M& m) {
  switch (m.k) {
    case COMM: return "<!--"+m.v+"-->";
    case UNKN: return "<"+m.v+">";
    case TEXT: { string r=g.boolean()?wsp(g,false):""; for (size_t i=0,n; i<m.v.size(); i+=n) { n=u8len(m.v,i); if (m.v[i]==' ') r+=wsp(g,true); else r+=wval(g,m.v.substr(i,n),0); } return r+(g.boolean()?wsp(g,false):""); }
    case DECL: { string r=g.boolean()?"<?xml":"<?XML"; if (!m.ver.empty()) r+=wattr(g,"version",m.ver); if (!m.enc.empty()) r+=wattr(g,"encoding",m.enc); if (!m.sta.empty()) r+=wattr(g,"standalone",m.sta); return r+wsp(g,true)+"?>"; }
    default: break;
  }
  string r="<"+m.v; for (auto& a : m.at) r+=wattr(g,a.first,a.second); r+=wsp(g,false);
  if (m.ch.empty()&&g.boolean()) return r+"/>";
  r+=">"; bool text=false;
  for (auto& c : m.ch) { if (!text&&c.k!=TEXT) r+=wsp(g,false); text=c.k==TEXT; r+=wnode(g,c); }
  if (!text) r+=wsp(g,false);
  return r+"</"+m.v+wsp(g,false)+">";
}
PROP(tree_parse, 15000, 500000) {
  Doc d=genDoc(g);
  // what is written has to be in normal form: texts condensed, not blank
  vector<M> want=norm(d);
  std::function<void(M&)> strip=[&](M& m) { string b; for (auto& c : m.ch) strip(c); };
  string s=g.boolean()?wsp(g,false):""; bool bom=d.e==UTF8&&g.chance(1,8); if (bom) s="\xef\xbb\xbf"+s;
  bool known=bom; for (auto& m : want) {
    MULTI=known&&m.k!=DECL; s+=wnode(g,m)+wsp(g,false); MULTI=false;
    if (!known && &m==&want[0] && m.k==DECL && d.e==UTF8) { string e; for (char c : m.enc) e+=(char)tolower(c); known= e.empty()||e=="utf-8"||e=="utf8"; } }
  g.label(known?"UTF-8 declared":"encoding not declared");
  if (g.chance(1,5)) { string t; for (char c : s) { if (c=='\n') t+="\r\n"; else t+=c; }  bool raw=false; for (auto& m : want) { std::function<void(const M&)> f=[&](const M& x){ if (x.v.find('\n')!=string::npos) raw=true; for (auto& a : x.at) if (a.second.find('\n')!=string::npos) raw=true; for (auto& c : x.ch) f(c); }; f(m); } if (!raw) s=t; }
  g.note(esc(s)); size_t n=0; for (auto& m : want) n+=count(m); g.nontrivial(n>=4); g.label(bom?"bom":"no bom");
  gear::TiXmlDocument a;
  if (g.boolean()) { a.Parse(s.c_str()); REQUIRE(!a.Error(),a.ErrorDesc()," ",esc(s)); }
  else { string f=scratch()+"/w.xml"; spit(f,s); REQUIRE(a.LoadFile(f),a.ErrorDesc()," ",esc(s)); }
  same(g,viewDoc(a),want,"independently written file");
  auto* root=a.RootElement(); REQUIRE(root!=nullptr);
  for (auto& m : want) if (m.k==ELEM) { REQ_EQ(string(root->Value()),m.v); break; }
}
// ---------- edit histories ----------
struct Path { vector<int> p; };
static M* modelAt(vector<M>& d, const vector<int>& p) { vector<M>* v=&d; M* m=nullptr; for (int i : p) { m=&(*v)[i]; v=&m->ch; } return m; }
static gear::TiXmlNode* nodeAt(gear::TiXmlDocument& d, const vector<int>& p) { gear::TiXmlNode* n=&d; for (int i : p) n=gear::TiXmlHandle(n).Child(i).Node(); return n; }
static void collect(const vector<M>& v, vector<int> pre, vector<vector<int>>& out, bool elemsOnly) { for (size_t i=0;i<v.size();i++) { auto p=pre; p.push_back(i); if (!elemsOnly||v[i].k==ELEM) out.push_back(p); collect(v[i].ch,p,out,elemsOnly); } }
static void deepCheck(Gen& g, gear::TiXmlNode* n, const vector<M>& ch, gear::TiXmlDocument* doc) {
  const gear::TiXmlNode* cn=n;
  REQ_EQ(n->NoChildren(),ch.empty());
  vector<gear::TiXmlNode*> kids; for (auto* c=n->FirstChild(); c; c=c->NextSibling()) { kids.push_back(c); REQUIRE(kids.size()<=ch.size()); }
  REQ_EQ(kids.size(),ch.size());
  int N=kids.size(); auto K=[&](int i)->gear::TiXmlNode*{ return i>=0&&i<N?kids[i]:nullptr; };
  REQUIRE(n->FirstChild()==K(0)); REQUIRE(n->LastChild()==(N?K(N-1):nullptr)); REQUIRE(cn->LastChild()==n->LastChild());
  std::set<string> vals; for (auto& m : ch) if (m.k!=DECL) vals.insert(m.v); vals.insert("absent"); vals.insert("a");
  auto firstFrom=[&](int i, const string* v, bool el)->gear::TiXmlNode*{ for (;i<N;i++) if ((!el||ch[i].k==ELEM)&&(!v||(ch[i].k==DECL?string():ch[i].v)==*v)) return kids[i]; return nullptr; };
  auto lastFrom=[&](int i, const string* v)->gear::TiXmlNode*{ for (;i>=0;i--) if ((ch[i].k==DECL?string():ch[i].v)==*v) return kids[i]; return nullptr; };
  for (auto& v : vals) {
    REQUIRE(n->FirstChild(v)==firstFrom(0,&v,false)); REQUIRE(cn->FirstChild(v)==n->FirstChild(v)); REQUIRE(n->LastChild(v)==lastFrom(N-1,&v)); REQUIRE(cn->LastChild(v)==n->LastChild(v));
    REQUIRE(n->FirstChildElement(v)==firstFrom(0,&v,true)); REQUIRE(cn->FirstChildElement(v)==n->FirstChildElement(v));
    REQUIRE(n->IterateChildren(v,0)==firstFrom(0,&v,false));
    gear::TiXmlHandle h(n); vector<gear::TiXmlNode*> all,els; for (int i=0;i<N;i++) if ((ch[i].k==DECL?string():ch[i].v)==v) { all.push_back(kids[i]); if (ch[i].k==ELEM) els.push_back(kids[i]); }
    for (size_t i=0;i<=all.size();i++) REQUIRE(h.Child(v,i).Node()==(i<all.size()?all[i]:nullptr));
    for (size_t i=0;i<=els.size();i++) REQUIRE(h.ChildElement(v,i).Element()==(i<els.size()?els[i]:nullptr));
    REQUIRE(h.FirstChild(v).Node()==n->FirstChild(v)); REQUIRE(h.FirstChildElement(v).Node()==n->FirstChildElement(v));
  }
  REQUIRE(n->FirstChildElement()==firstFrom(0,nullptr,true)); REQUIRE(cn->FirstChildElement()==n->FirstChildElement());
  gear::TiXmlHandle h(n); for (int i=0;i<=N;i++) REQUIRE(h.Child(i).Node()==K(i)); { int j=0; for (int i=0;i<N;i++) if (ch[i].k==ELEM) REQUIRE(h.ChildElement(j++).Element()==kids[i]); REQUIRE(h.ChildElement(j).Node()==nullptr); }
  REQUIRE(h.FirstChild().Node()==K(0)); REQUIRE(h.FirstChildElement().Node()==firstFrom(0,nullptr,true)); REQUIRE(gear::TiXmlHandle(nullptr).FirstChild().Child(3).Element()==nullptr);
  gear::TiXmlNode* it=0; const gear::TiXmlNode* cit=0; for (int i=0;i<=N;i++) { it=n->IterateChildren(it); cit=cn->IterateChildren(cit); REQUIRE(it==K(i)); REQUIRE(cit==it); }
  for (int i=0;i<N;i++) {
    gear::TiXmlNode* k=kids[i]; const gear::TiXmlNode* ck=k; const M& m=ch[i];
    REQUIRE(k->Parent()==n); REQUIRE(k->NextSibling()==K(i+1)); REQUIRE(k->PreviousSibling()==K(i-1)); REQUIRE(ck->PreviousSibling()==K(i-1)); REQUIRE(k->GetDocument()==doc); REQUIRE(ck->GetDocument()==doc);
    REQUIRE(k->NextSiblingElement()==firstFrom(i+1,nullptr,true)); REQUIRE(ck->NextSiblingElement()==k->NextSiblingElement());
    for (auto& v : vals) { REQUIRE(k->NextSibling(v)==firstFrom(i+1,&v,false)); REQUIRE(ck->NextSibling(v)==k->NextSibling(v)); REQUIRE(k->PreviousSibling(v)==lastFrom(i-1,&v)); REQUIRE(ck->PreviousSibling(v)==k->PreviousSibling(v));
      REQUIRE(k->NextSiblingElement(v)==firstFrom(i+1,&v,true)); REQUIRE(ck->NextSiblingElement(v)==k->NextSiblingElement(v)); REQUIRE(n->IterateChildren(v,k)==k->NextSibling(v)); }
    REQUIRE((k->ToElement()!=0)==(m.k==ELEM)); REQUIRE((k->ToText()!=0)==(m.k==TEXT)); REQUIRE((k->ToComment()!=0)==(m.k==COMM)); REQUIRE((k->ToUnknown()!=0)==(m.k==UNKN)); REQUIRE((k->ToDeclaration()!=0)==(m.k==DECL)); REQUIRE(k->ToDocument()==0);
    const int types[]={gear::TiXmlNode::ELEMENT,gear::TiXmlNode::TEXT,gear::TiXmlNode::COMMENT,gear::TiXmlNode::UNKNOWN,gear::TiXmlNode::DECLARATION}; REQ_EQ(k->Type(),types[m.k]);
    if (m.k==ELEM) {
      auto* e=k->ToElement(); vector<gear::TiXmlAttribute*> as; for (auto* a=e->FirstAttribute(); a; a=a->Next()) { as.push_back(a); REQUIRE(as.size()<=m.at.size()); }
      REQ_EQ(as.size(),m.at.size()); REQUIRE(e->LastAttribute()==(as.empty()?nullptr:as.back()));
      for (size_t j=0;j<as.size();j++) {
        REQ_EQ(esc(as[j]->Name()),esc(m.at[j].first)); REQ_EQ(esc(as[j]->Value()),esc(m.at[j].second)); REQUIRE(as[j]->Previous()==(j?as[j-1]:nullptr));
        const string& val=m.at[j].second; const string& nm=m.at[j].first;
        REQUIRE(e->Attribute(nm)!=nullptr); REQ_EQ(esc(e->Attribute(nm)),esc(val));
        int iv=-77; double dv=-77; int si; double sd; bool isI=sscanf(val.c_str(),"%d",&si)==1, isD=sscanf(val.c_str(),"%le",&sd)==1;
        REQ_EQ(e->QueryIntAttribute(nm,&iv),(int)(isI?gear::TIXML_SUCCESS:gear::TIXML_WRONG_TYPE)); if (isI) REQ_EQ(iv,si);
        REQ_EQ(e->QueryDoubleAttribute(nm,&dv),(int)(isD?gear::TIXML_SUCCESS:gear::TIXML_WRONG_TYPE)); if (isD) REQUIRE(dv==sd||(dv!=dv&&sd!=sd));
        const char* q=e->Attribute(nm,&iv); REQ_EQ(esc(q),esc(val)); REQ_EQ(iv,isI?si:0); q=e->Attribute(nm,&dv); REQ_EQ(esc(q),esc(val)); if (isD) REQUIRE(dv==sd||dv!=dv); else REQ_EQ(dv,0.);
        REQ_EQ(as[j]->IntValue(),isI?si:0); { double want=atof(val.c_str()), is=as[j]->DoubleValue(); REQUIRE(is==want||(is!=is&&want!=want)); const gear::TiXmlAttribute* ca=as[j]; REQUIRE(ca->Previous()==as[j]->Previous()&&ca->Next()==as[j]->Next()); }
      }
      int iv=5; double dv=5; REQUIRE(e->Attribute("no such")==nullptr); REQ_EQ(e->QueryIntAttribute("no such",&iv),(int)gear::TIXML_NO_ATTRIBUTE); REQ_EQ(iv,5); REQUIRE(e->Attribute("no such",&iv)==nullptr); REQ_EQ(iv,0); REQUIRE(e->Attribute("no such",&dv)==nullptr); REQ_EQ(dv,0.);
    }
    deepCheck(g,k,m.ch,doc);
  }
}
// copy construction and assignment of the single kinds of nodes
static void copyByType(Gen& g, gear::TiXmlNode* n, const M& m) {
  if (auto* c=n->ToComment()) { gear::TiXmlComment a(*c), b; b.SetValue("old"); b=a; a.SetValue("x"); same(g,{view(&b)},{m},"copied comment"); }
  if (auto* c=n->ToText()) { gear::TiXmlText a(*c), b("old"); b=a; a.SetValue("x"); same(g,{view(&b)},{m},"copied text"); }
  if (auto* c=n->ToUnknown()) { gear::TiXmlUnknown a(*c), b; b.SetValue("old"); b=a; a.SetValue("x"); same(g,{view(&b)},{m},"copied unknown"); }
  if (auto* c=n->ToDeclaration()) { gear::TiXmlDeclaration a(*c), b("9","old","old"), d(string(c->Version()),string(c->Encoding()),string(c->Standalone())); b=a; same(g,{view(&b),view(&d)},{m,m},"copied declaration"); }
}
PROP(tree_edits, 12000, 400000) {
  gear::TiXmlDocument doc("mem"); vector<M> mod;
  int nops=g.size(1,40); int edits=0;
  for (int op=0; op<nops; ++op) {
    vector<vector<int>> elems, all; collect(mod,{},elems,true); collect(mod,{},all,false); elems.push_back({});   // {} is the document
    auto parentP=g.pick(elems); vector<M>& kidsM= parentP.empty()?mod:modelAt(mod,parentP)->ch; gear::TiXmlNode* P=nodeAt(doc,parentP);
    M nm=genNode(g,BYTES,g.draw(3)); std::unique_ptr<gear::TiXmlNode> nn(make(nm,nullptr));
    int what=g.draw(13); int idx=kidsM.empty()?0:(int)g.draw(kidsM.size()); auto* C=gear::TiXmlHandle(P).Child(idx).Node();
    switch (what) {
      case 0: case 1: { g.note("end ",show(nm)); auto* r=P->InsertEndChild(*nn); REQUIRE(r&&r!=nn.get()); same(g,{view(r)},{nm},"inserted"); kidsM.push_back(nm); edits++; break; }
      case 2: { g.note("link ",show(nm)); auto* raw=nn.release(); REQUIRE(P->LinkEndChild(raw)==raw); kidsM.push_back(nm); edits++; break; }
      case 3: { g.note("before ",idx," ",show(nm)); auto* r=P->InsertBeforeChild(C,*nn); if (!C) REQUIRE(r==nullptr); else { REQUIRE(r&&r->NextSibling()==C); kidsM.insert(kidsM.begin()+idx,nm); edits++; } break; }
      case 4: { g.note("after ",idx," ",show(nm)); auto* r=P->InsertAfterChild(C,*nn); if (!C) REQUIRE(r==nullptr); else { REQUIRE(r&&r->PreviousSibling()==C); kidsM.insert(kidsM.begin()+idx+1,nm); edits++; } break; }
      case 5: if (C) { g.note("replace ",idx," ",show(nm)); auto* r=P->ReplaceChild(C,*nn); REQUIRE(r&&r->Parent()==P); kidsM[idx]=nm; edits++; } break;
      case 6: if (C) { g.note("remove ",idx); REQUIRE(P->RemoveChild(C)); kidsM.erase(kidsM.begin()+idx); edits++; } break;
      case 7: { // edits next to a node that is not a child are refused
        gear::TiXmlElement foreign("f"); g.note("foreign"); REQUIRE(P->InsertBeforeChild(&foreign,*nn)==nullptr); REQUIRE(P->InsertAfterChild(&foreign,*nn)==nullptr); REQUIRE(P->ReplaceChild(&foreign,*nn)==nullptr); break; }
      case 8: case 9: if (!parentP.empty()) { auto* e=P->ToElement(); M& em=*modelAt(mod,parentP); string k=g.chance(1,2)&&!em.at.empty()?em.at[g.draw(em.at.size())].first:genName(g,BYTES), v; 
          switch (g.draw(4)) { case 0: { int i=(int)(unsigned)g.draw(1ull<<32); char b[32]; sprintf(b,"%d",i); v=b; if (g.boolean()) e->SetAttribute(k,i); else { e->SetAttribute(k.c_str(),0); for (auto* a=e->FirstAttribute(); a; a=a->Next()) if (k==a->Name()) a->SetIntValue(i); } break; }
            case 1: { double x=g.generic(-10,10)*std::pow(10.,(double)g.integer(-30,30)); char b[64]; sprintf(b,"%.9e",x); v=b; if (g.boolean()) e->SetDoubleAttribute(k.c_str(),x); else { e->SetAttribute(k.c_str(),0); for (auto* a=e->FirstAttribute(); a; a=a->Next()) if (k==a->Name()) a->SetDoubleValue(x); } break; }
            default: v=g.chance(1,4)?g.pick<string>({"12","-3.5e2"," 7x","0x1A","1e400","nanx","99999"}):genStr(g,BYTES); if (g.boolean()) e->SetAttribute(k,v); else e->SetAttribute(k.c_str(),v.c_str()); }
          g.note("attr ",esc(k),"=",esc(v)); bool f=false; for (auto& a : em.at) if (a.first==k) { a.second=v; f=true; } if (!f) em.at.push_back({k,v}); edits++; } break;
      case 10: if (!parentP.empty()) { auto* e=P->ToElement(); M& em=*modelAt(mod,parentP); string k=!em.at.empty()&&!g.chance(1,5)?em.at[g.draw(em.at.size())].first:"no such"; g.note("rmattr ",esc(k)); e->RemoveAttribute(k); for (size_t i=0;i<em.at.size();i++) if (em.at[i].first==k) { em.at.erase(em.at.begin()+i); break; } edits++; } break;
      case 11: if (!all.empty()) { auto p=g.pick(all); M* m=modelAt(mod,p); auto* n=nodeAt(doc,p);
          if (g.boolean()&&m->k!=DECL) { string v=m->k==ELEM?genName(g,BYTES):genStr(g,BYTES); g.note("value ",esc(v)); n->SetValue(v); m->v=v; }
          else { std::unique_ptr<gear::TiXmlNode> c(n->Clone()); same(g,{view(c.get())},{*m},"clone"); REQUIRE(c->Parent()==nullptr); REQUIRE(c->NextSibling()==nullptr); REQUIRE(c->PreviousSibling()==nullptr); copyByType(g,n,*m);
            g.note("clone"); M copy=*m; if (c->ToElement()) { c->ToElement()->SetAttribute("changed","1"); c->InsertEndChild(gear::TiXmlText("more")); bool f=false; for (auto& a : copy.at) if (a.first=="changed") { a.second="1"; f=true; } if (!f) copy.at.push_back({"changed","1"}); M t; t.k=TEXT; t.v="more"; copy.ch.push_back(t); }
            P->LinkEndChild(c.release()); kidsM.push_back(copy); edits++; } } break;
      default: switch (g.draw(3)) {
          case 0: g.note("clear"); if (g.chance(1,3)) { P->Clear(); kidsM.clear(); } break;
          case 1: { gear::TiXmlDocument copy(doc); same(g,viewDoc(copy),mod,"copied document"); gear::TiXmlDocument as; as.LinkEndChild(new gear::TiXmlComment()); as=copy; copy.Clear(); same(g,viewDoc(as),mod,"assigned document"); deepCheck(g,&as,mod,&as); const gear::TiXmlNode& dn=doc; std::unique_ptr<gear::TiXmlNode> cl(dn.Clone()); REQUIRE(cl->ToDocument()!=0); as.Clear(); same(g,viewDoc(*cl->ToDocument()),mod,"cloned document"); break; }
          default: if (P->ToElement()) { gear::TiXmlElement e("x"); e.SetAttribute("q","1"); e.InsertEndChild(gear::TiXmlText("y")); e=*P->ToElement(); same(g,{view(&e)},{view(P)},"assigned element"); gear::TiXmlElement e2(e); e.Clear(); same(g,{view(&e2)},{view(P)},"copied element"); }
        }
    }
    if (g.chance(1,6)) same(g,viewDoc(doc),mod,"after an edit");
  }
  g.nontrivial(edits>=3);
  same(g,viewDoc(doc),mod,"after all edits"); deepCheck(g,&doc,mod,&doc);
  gear::TiXmlElement* root=nullptr; for (auto* c=doc.FirstChild(); c; c=c->NextSibling()) if (c->ToElement()) { root=c->ToElement(); break; }
  REQUIRE(doc.RootElement()==root);
}
