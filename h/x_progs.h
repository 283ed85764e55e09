// In paths and programs ~ stands for the number of the program.
// Programs beyond those of gen.h for code generation: several modules, odd
// names and paths, many of everything, aborts inside and across modules.
#ifndef X_PROGS_H
#define X_PROGS_H
#include <stdlib.h>
typedef struct { struct { const char *path, *file, *text; int big; } m[6]; } Special;
#define PRE "@ Unit@ = *(); Unit@ Unit = Unit@();\n@ N@ = +(Unit@ a, Unit@ b, Unit@ c);\n@ P@ = *(N@ x, N@ y);\n"
#define F(body) "(N@ p, N@ q, P@ s) { " body " };\n"
#define ONE(body) { { { "/Foo~%", "/m/Foo~.fble", PRE F(body) } } }
static const char* const NTYPES = PRE "@(Unit@, N@, P@, Unit);\n";
static const Special specials[] = {
  // modules: a shared library of types and functions, used by two others
  { { { "/L~%", "/m/L~.fble", PRE "(N@) { N@; } Not = (N@ n) { n.?(a: N@(b: Unit), b: N@(c: Unit), c: N@(a: Unit)); };\n@(Unit@, N@, P@, Unit, Not);\n" },
      { "/A~%", "/m/A~.fble", "% L = /L~%;\n(L.N@ n) { L.Not(L.Not(n)); };\n" },
      { "/B~%", "/m/B~.fble", "% L = /L~%;\n(L.P@ p) { L.Not(p.y).?(a: p.x, : p.y); };\n" },
      { "/M~%", "/m/M~.fble", "% L = /L~%; @ N@ = L.N@; @ P@ = L.P@;\n" F("/A~%(/B~%(s)).?(a: p, b: /A~%(q), c: L.Not(q));") } } },
  // abort in a function of another module
  { { { "/L~%", "/m/L~.fble", "@ Unit@ = *(); Unit@ Unit = Unit@(); @ N@ = +(Unit@ a, Unit@ b, Unit@ c); @ P@ = *(N@ x, N@ y);\n@(Unit@, N@, P@, Unit, Bad: (N@ n)\n{ N@(b: n.b); });\n" },
      { "/M~%", "/m/M~.fble", "% L = /L~%; @ N@ = L.N@; @ P@ = L.P@;\n" F("N@ z = L.Bad(p);\n  z.?(b: q, : s.y);") } } },
  // modules in directories with odd names
  { { { "/d/'we\"ird \\ %d\?\?( \303\251'/L~%", "/m/d/we\"ird \\ %d\?\?( \303\251/L~.fble", "@ Unit@ = *(); Unit@ Unit = Unit@(); @ N@ = +(Unit@ a, Unit@ b, Unit@ c); @ P@ = *(N@ x, N@ y);\n@(Unit@, N@, P@, Unit, Bad: (N@ n) { N@(b: n.b); });\n" },
      { "/d/'M~%s'%", "/m/d/M~%s.fble", "% L = /d/'we\"ird \\ %d\?\?( \303\251'/L~%; @ N@ = L.N@; @ P@ = L.P@;\n" F("L.Bad(p).?(b: L.Bad(q), : s.y);") } } },
  // paths that differ in where the components end, or are alike once made a symbol
  { { { "/a~/b%", "/m/a~/b.fble", "@ Unit@ = *(); Unit@ Unit = Unit@(); @ N@ = +(Unit@ a, Unit@ b, Unit@ c); @ P@ = *(N@ x, N@ y);\n@(Unit@, N@, P@, Unit);\n" },
      { "/a~b%", "/m/a~b.fble", "% L = /a~/b%;\n(L.N@ n) { n.?(a: L.N@(b: n.a), : n); };\n" },
      { "/'a~_2f_b'%", "/m/a~_2f_b.fble", "% L = /a~/b%;\n(L.N@ n) { /a~b%(/a~b%(n)).?(b: L.N@(c: n.b), : n); };\n" },
      { "/a~/b/c%", "/m/a~/b/c.fble", "% L = /a~/b%; @ N@ = L.N@; @ P@ = L.P@;\n" F("/a~b%(/'a~_2f_b'%(p)).?(b: q, : /'a~_2f_b'%(s.x));") } } },
  // names in need of quoting
  ONE("N@ 'a \"b\" \\n %s' = p; (N@) { N@; } 'f\?\?=' = (N@ 'it''s') { 'it''s'.?(a: q, : 'a \"b\" \\n %s'); }; (N@ n) { N@ '\303\251' = 'f\?\?='(n); '\303\251'; }(s.x);"),
  ONE("N@ '' = p; (N@ 'new\nline') { 'new\nline'; }('');"),
  // a struct of 20 and a union of 300 fields, functions of 15 arguments and as many captured values
  { { { "/Big~%", "/m/Big~.fble", NULL, 1 } } },
  { { { "/Big~%", "/m/Big~.fble", NULL, 2 } } },
  { { { "/Big~%", "/m/Big~.fble", NULL, 3 } } },
  { { { "/Big~%", "/m/Big~.fble", NULL, 4 } } },
  { { { "/Big~%", "/m/Big~.fble", NULL, 5 } } },
  // vacuous and undefined values
  ONE("p.?(a: { N@ z = z; z; }, b: q, c: { (N@) { N@; } f = f; f(q); });"),
  ONE("(N@) { N@; } f = (N@ n) { N@ z = n.?(a: g(n), : n), (N@) { N@; } g = (N@ m) { m.?(a: z, : q); }; z; };\n  f(p);"),
  ONE("P@ z = P@(q, z.x); z.y;"),
  ONE("P@ z = s.@(x: z.y); P@ w = z.@(y: q); w.x;"),
  ONE("N@ a = p.?(b: b, : q), N@ b = a.?(c: q, : a); b;"),
  // deep recursion through tail calls and otherwise
  ONE("@ L@ = +(LP@ cons, Unit@ nil), @ LP@ = *(N@ head, L@ tail); (N@, N@) { N@; } Loop = (N@ n, N@ acc) { n.?(a: acc, b: Loop(N@(a: Unit), acc), c: Loop(N@(b: Unit), q)); }; Loop(p, Loop(q, s.x));"),
  // unions of a single tag
  ONE("@ O@ = +(N@ x); O@ o = O@(x: p.?(a: q, : p)); N@ r = o.?(x: o.x); r.?(a: { O@ z = O@(x: z.x); z.?(x: q); }, b: o.?(x: s.x), : o.x);"),
  ONE("@ O@ = +(N@ x); (O@) { N@; } f = (O@ o) { o.?(x: o.x); }; f(O@(x: p)).?(a: q, b: f(O@(x: f(O@(x: s.y)))), : p);"),
  // polymorphism and packages
  ONE("<@ T@>(T@, T@) { (N@) { T@; }; } If = <@ T@>(T@ a, T@ b) { (N@ n) { n.?(a: a, : b); }; }; If<N@>(p, q)(If<N@>(s.x, s.y)(p));"),
  ONE("(((N@) { N@; }) { N@; }) { N@; } k = (((N@) { N@; }) { N@; } c) { c((N@ n) { n; }); }; k(((N@) { N@; } f) { f(p).?(a: f(q), : f(s.x)); });"),
  // select with every shape of branches
  ONE("p.?(a: q.?(a: s.x, : s.y), : q.?(b: p, : s.x.?(c: q, : p)));"),
  ONE("N@ r = p.?(b: q, : s.x); N@ t = r.?(a: r, c: q, : p); t.?(a: N@(c: Unit), b: r, c: N@(a: Unit));"),
  // a function that returns a function given too many arguments, and one kept half applied
  ONE("(N@) { (N@) { (N@) { N@; }; }; } f = (N@ a) { (N@ b) { (N@ c) { a.?(a: b, b: c, c: a); }; }; }; (N@) { (N@) { N@; }; } g = f(p); g(q, s.x).?(a: f(p, q, s.y), : g(s.y, p));"),
};
// Big programs, by number.
static const char* Big(int k) {
  static char out[8][120000]; static int nout; char* t = out[nout++ & 7], *o = t;
  o += sprintf(o, "%s", PRE);
  if (k == 1) {               // struct of 20 fields, function of 15 arguments, all captured
    o += sprintf(o, "@ S@ = *("); for (int i = 0; i < 20; ++i) o += sprintf(o, "%sN@ f%d", i ? ", " : "", i); o += sprintf(o, ");\n(N@ p, N@ q, P@ s) {\n");
    o += sprintf(o, "  S@ v = S@("); for (int i = 0; i < 20; ++i) o += sprintf(o, "%s%s", i ? ", " : "", i % 3 == 0 ? "p" : i % 3 == 1 ? "q" : "s.x"); o += sprintf(o, ");\n");
    for (int i = 0; i < 12; ++i) o += sprintf(o, "  N@ c%d = v.f%d.?(a: p, : v.f%d);\n", i, i + 3, i + 8);
    o += sprintf(o, "  ("); for (int i = 0; i < 15; ++i) o += sprintf(o, "%sN@", i ? ", " : ""); o += sprintf(o, ") { N@; } f = ("); for (int i = 0; i < 15; ++i) o += sprintf(o, "%sN@ a%d", i ? ", " : "", i);
    o += sprintf(o, ") { a0"); for (int i = 1; i < 15; ++i) o += sprintf(o, ".?(a: a%d, b: c%d, c: a%d)", i, i % 12, 14 - i); o += sprintf(o, "; };\n  f("); for (int i = 0; i < 15; ++i) o += sprintf(o, "%sc%d", i ? ", " : "", (i * 5) % 12); o += sprintf(o, ");\n};\n");
  } else if (k == 2) {        // union of 300 fields, select over sparse and dense tags
    o += sprintf(o, "@ W@ = +("); for (int i = 0; i < 300; ++i) o += sprintf(o, "%s%s t%d", i ? ", " : "", i % 7 ? "N@" : "P@", i); o += sprintf(o, ");\n(N@ p, N@ q, P@ s) {\n");
    o += sprintf(o, "  W@ v = p.?(a: W@(t1: q), b: W@(t299: q), c: W@(t280: s));\n  N@ r = v.?("); for (int i = 0; i < 300; i += (i < 20 ? 1 : 37)) o += sprintf(o, "t%d: %s, ", i, i == 1 ? "v.t1" : i % 2 ? "p" : "q"); o += sprintf(o, ": v.?(t280: v.t280.y, t299: v.t299, : p));\n  W@ w = W@(t200: r); w.t200.?(a: w.t200, b: v.t299, c: q);\n};\n");
  } else if (k == 3) {        // many locals and a long list
    o += sprintf(o, "@ L@ = +(LP@ cons, Unit@ nil), @ LP@ = *(N@ head, L@ tail);\n(L@, N@) { N@; } Fold = (L@ l, N@ z) { l.?(cons: Fold(l.cons.tail, l.cons.head.?(a: z, b: l.cons.head, c: z.?(a: l.cons.head, : z))), nil: z); };\n(L@) { N@; } Sum = (L@ l) { Fold(l, N@(a: Unit)); };\n(N@ p, N@ q, P@ s) {\n  N@ x0 = p;\n");
    for (int i = 1; i < 60; ++i) o += sprintf(o, "  N@ x%d = x%d.?(a: %s, : x%d);\n", i, i - 1, i % 2 ? "q" : "s.x", i / 2);
    o += sprintf(o, "  Sum["); for (int i = 0; i < 40; ++i) o += sprintf(o, "%sx%d", i ? ", " : "", (i * 7) % 60); o += sprintf(o, "];\n};\n");
  } else if (k == 5) {        // more locals and later lines than fit in an operand
    for (int i = 0; i < 66000; ++i) *o++ = '\n';
    o += sprintf(o, "(N@ p, N@ q, P@ s) {\n  N@ x0 = p;\n");
    for (int i = 1; i < 530; ++i) o += sprintf(o, "  N@ x%d = N@(%s: Unit);\n", i, i % 3 ? i % 2 ? "a" : "b" : "c");
    o += sprintf(o, "  N@ y = p.?(a: x528, b: N@(a: x515.b), c: N@(b: Unit)); @ M@ = *("); for (int i = 0; i < 530; ++i) o += sprintf(o, "%sN@ f%d", i ? ", " : "", i);
    o += sprintf(o, "); M@ m = M@("); for (int i = 0; i < 530; ++i) o += sprintf(o, "%sx%d", i ? ", " : "", i);
    o += sprintf(o, ");\n  y.?(a: m.f0, b: m.f529, c: N@(b: m.f%d.b));\n};\n", 514);
  } else {                    // a literal of 90 letters
    o += sprintf(o, "@ L@ = +(LP@ cons, Unit@ nil), @ LP@ = *(N@ head, L@ tail);\n(L@, N@, N@) { N@; } Walk = (L@ l, N@ z, N@ w) { l.?(cons: Walk(l.cons.tail, l.cons.head.?(a: w, b: z, c: l.cons.head), z), nil: z); };\n(N@ p, N@ q, P@ s) {\n  (L@) { N@; } W = (L@ l) { Walk(l, p, q.?(a: s.x, : q)); };\n  W|'"); for (int i = 0; i < 90; ++i) *o++ = "abc"[i * i % 7 % 3]; o += sprintf(o, "';\n};\n");
  }
  return t;
}
#endif
