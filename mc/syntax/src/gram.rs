//! Syntax families: alphabets that exercise one region of the grammar each.
use mccore::grammar::Space;
use mccore::Grammar;

pub struct Syn {
  pub name: &'static str,
  /// ts | tsx | jsx | dts | script | module (the reference reading)
  pub how: &'static str,
  pub start: &'static str,
  pub cap: usize,
  pub quick: u64,
  pub thorough: u64,
  pub rules: &'static [(&'static str, &'static [&'static str])],
}
impl Syn {
  pub fn space(&self, quick: bool) -> Space {
    Grammar::new(self.rules).space(self.start, self.cap, if quick { self.quick } else { self.thorough })
  }
}

pub const BINARY: Syn = Syn {
  name: "operators",
  how: "script",
  start: "P",
  cap: 5,
  quick: 500_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:$E", "0:x=$E;"]),
    (
      "E",
      &[
        "a", "1", "($E)", "$E+$E", "$E-$E", "$E*$E", "$E/$E", "$E**$E", "$E<$E", "$E in $E", "$E instanceof $E", "$E==$E", "$E&$E", "$E|$E", "$E^$E",
        "$E<<$E", "$E>>>$E", "$E&&$E", "$E||$E", "$E??$E", "$E?$E:$E", "$E,$E", "-$E", "- $E", "+$E", "!$E", "typeof $E", "void $E", "delete $E",
        "++a", "a++", "--a", "a--", "a=$E", "a+=$E", "a**=$E", "a??=$E", "a>>>=$E", "a&&=$E",
      ],
    ),
  ],
};
pub const BINARY2: Syn = Syn {
  name: "operator-pairs",
  how: "script",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:$E"]),
    ("O", &["0:+", "0:-", "0:*", "0:%", "0:/", "0:**", "0:<", "0:>", "0:<=", "0:>=", "0: in ", "0: instanceof ", "0:==", "0:!=", "0:===", "0:!==", "0:&", "0:|", "0:^", "0:<<", "0:>>", "0:>>>", "0:&&", "0:||", "0:??", "0:,", "0:=", "0:?b:", "0:?b=c:"]),
    ("U", &["0:-", "0:+", "0:!", "0:~", "0:typeof ", "0:void ", "0:++", "0:--", "0:delete ", "0:new ", "0:await ", "0:...", "0:yield ", "0:async ", "0:b=>"]),
    ("E", &["a", "$E$O$E", "($E$O$E)", "$U$E", "($U$E)"]),
  ],
};
pub const MEMBER: Syn = Syn {
  name: "member-call-new",
  how: "script",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$E"]),
    (
      "E",
      &[
        "0:a", "1:1", "1.", "1.5", "'s'", "/r/", "`t`", "`t${$E}u`", "($E)", "$E.b", "$E?.b", "$E[$E]", "$E?.[$E]", "$E($A)", "$E?.($A)", "new $E", "new $E($A)", "new ($E)", "new ($E)($A)", "($E?.b)", "$E`x`",
        "new.target", "import($E)", "import.meta", "this", "async($A)", "$E.new", "$E.#p", "function(){}", "function*(){}", "async function(){}", "class{}", "class extends $E{}", "()=>$E", "async()=>$E", "async x=>$E","async", "await", "yield", "let", "of",
        "{$M}", "[$A]", "a=$E", "$E++", "-$E", "typeof $E", "$E,$E", "$E+$E", "$E?$E:$E", "await $E", "yield $E", "super.x", "#p in $E",
      ],
    ),
    ("A", &["0:", "0:$E", "1:$E,$E", "1:...$E", "1:,$E", "1:$E,"]),
    ("M", &["0:", "1:a", "1:a:$E", "1:[$E]:$E", "1:...$E", "1:get a(){}", "1:set a(b){}", "1:async a(){}", "1:*a(){}", "1:async*a(){}", "1:'a':$E", "1:1:$E", "1:a=$E", "1:get", "1:async", "1:a(){}", "1:1n:$E", "1:__proto__:$E", "1:get:$E", "1:static(){}"]),
  ],
};
pub const STMTS: Syn = Syn {
  name: "statements",
  how: "script",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$S", "0:$S$S", "0:$S $S $S", "0:'use strict';$S", "0:'a'\n'use strict'\n$S"]),
    ("E", &["0:a", "a=b", "a,b", "a in b", "(a in b)", "{}", "[]", "function(){}", "class{}", "()=>{}", "a?b in c:d", "()=>a in b","(()=>{})", "`x`", "async", "/r/","-1","++a","let[a]","({})"]),
    (
      "S",
      &[
        "$E;", "$E\n", ";", "{$S}", "{}", "{$S$S}", "if($E)$S", "if($E)$S else $S", "while($E)$S", "do $S while($E)", "do $S while($E);", "for($I;$E;$E)$S", "for(;;)$S", "for($D in $E)$S",
        "for($D of $E)$S", "return $E;", "return;", "return\n", "throw $E;", "break;", "continue;", "L:$S", "break L;", "try{}catch{$S}", "try{$S}catch(e){}", "try{$S}finally{}", "switch($E){}", "switch($E){case $E:$S default:$S}",
        "var a=$E;", "let a=$E,b;", "const a=$E\n", "debugger;", "with($E)$S", "function f(){$S}", "async function f(){$S}", "function*f(){$S}", "class A{}", "function f(){'use strict';$S}", "('use strict');", "for await($D of $E)$S", "function f(a=$E){$S}", "var{a}=$E;", "var[a=$E]=b;",
      ],
    ),
    ("I", &["0:", "$E", "var a=$E", "let a=$E", "const a=$E", "var a", "let a,b"]),
    ("D", &["0:a", "var a", "let a", "const a", "let{a}", "var[a]", "a.b", "{a}", "[a]", "async", "(a)", "var a=1", "let of", "let async"]),
  ],
};
pub const FUNCS: Syn = Syn {
  name: "functions-patterns",
  how: "script",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$F", "0:x=$F", "0:($F)", "0:var $B=a;", "0:($B=a);", "0:for(var $B of a);", "0:try{}catch($B){}"]),
    ("B", &["0:a", "0:b", "{}", "[]", "{a}", "{a:$B}", "{a=$V}", "{a:$B=$V}", "{...$B}", "{[$V]:$B}", "[$B]", "[,$B]", "[$B,]", "[$B=$V]", "[...$B]", "{a,b:$B}", "[$B,$B]", "{'a':$B}", "{1:$B}"]),
    ("V", &["1", "$B=a", "a in b", "(a,b)", "await", "yield", "$F", "async()=>{}", "arguments"]),
    (
      "F",
      &[
        "function f($Q){$S}", "async function f($Q){$S}", "function*f($Q){$S}", "async function*f($Q){$S}", "($Q)=>{$S}", "($Q)=>$V", "async($Q)=>$V", "async a=>$V", "a=>$V", "a=>({a:$V})", "a=>{$S}", "()=>$B", "({m($Q){$S}})", "({get m(){$S}})", "({async*m($Q){$S}})", "()=>()=>$V", "(()=>{})()", "()=>{}()","async($Q)\n=>$V", "($Q)\n=>$V",
      ],
    ),
    ("Q", &["0:", "0:$B", "$B=$V", "...$B", "$B,$B", "$B,", "a,...$B"]),
    ("S", &["0:", "await a", "yield a", "yield", "yield*a", "return", "'use strict'", "var await", "var yield", "await:;", "for await(a of b);", "new.target", "super()", "super.x", "let a","$F"]),
  ],
};
pub const CLASSES: Syn = Syn {
  name: "classes",
  how: "script",
  start: "P",
  cap: 5,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:class A{$M}", "0:class A{$M$M}", "0:class A extends $H{$M}", "0:(class{$M})", "0:(class A{$M$M$M})", "0:class A{$M;$M}"]),
    ("H", &["a", "a.b", "a()", "(a,b)", "class{}", "null", "new a", "()=>{}", "(()=>{})", "a?.b", "{}", "function(){}", "a+b", "a`x`"]),
    (
      "M",
      &[
        "0:", "$K(){$S}", "$K=$E;", "$K;", "$K\n", "$K=$E\n", "static $K(){$S}", "static $K=$E;", "static $K;", "get $K(){$S}", "set $K(a){$S}", "static get $K(){$S}", "async $K(){$S}", "*$K(){$S}", "async*$K(){$S}", "static async*$K(){$S}",
        "static{$S}", ";", "static\n", "get\n", "async\n", "static static", "async\n$K(){$S}", "get\n$K(){$S}", "static\n$K;", "constructor(){$S}", "get constructor(){}", "static\n{$S}", "accessor $K;",
      ],
    ),
    ("K", &["a", "get", "set", "static", "async", "'a'", "1", "[$E]", "#a", "#b", "constructor", "'constructor'", "prototype", "#constructor", "1n", "await", "yield", "new", "in", "readonly", "accessor", "abstract", "override", "declare", "public"]),
    ("E", &["1", "this", "super.a", "a,b", "#a in b", "this.#a", "await", "arguments", "()=>super.a", "new.target", "this?.#b", "a in b", "await a"]),
    ("S", &["0:", "super()", "super.a", "return", "await a", "yield a", "this.#a", "delete this.#a", "#a in a", "var await", "this.#b()", "new.target", "a:await:;"]),
  ],
};
pub const MODULES: Syn = Syn {
  name: "modules",
  how: "module",
  start: "P",
  cap: 5,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$S", "0:$S\n$S"]),
    ("N", &["a", "default", "as", "from", "'s'", "of", "import", "type", "await"]),
    ("B", &["a", "as", "from", "default", "type", "b", "await", "let", "'s'"]),
    ("I", &["0:", "$B", "$N as $B", "$B,$B", "$B,", "$N as $B,$B", "default as $B"]),
    ("X", &["0:", "$B", "$B as $N", "a,$B", "$B,", "$N as $N"]),
    ("W", &["0:", " with{}", " with{type:'json'}", " with{'type':'json',}", " assert{}"]),
    (
      "S",
      &[
        "import'm'$W;", "import $B from'm'$W;", "import*as $B from'm';", "import{$I}from'm'$W;", "import $B,{$I}from'm';", "import $B,*as $B from'm';", "export{$X};", "export{$X}from'm'$W;", "export*from'm'$W;", "export*as $N from'm';",
        "export default $E;", "export default $D", "export $D", "export var a=$E;", "export let{a}=$E;", "$D", "await $E;", "import.meta;", "import($E);", "import defer*as a from'm';", "import $B from 'm'", "export default $E\n", "import source a from'm';", "{import'm';}", "var a", "return;", "import.meta=1;", "with(a);", "let await;", "'use strict';",
      ],
    ),
    ("D", &["function a(){}", "function(){}", "async function a(){}", "async function(){}", "class a{}", "class{}", "function*a(){}", "function*(){}", "const a=1;", "class extends b{}"]),
    ("E", &["1", "a", "await", "await a", "a,b", "(function(){})", "(class{})", "async()=>{}", "[]", "async", "import.meta.x", "this", "delete a", "010", "await(a)", "arguments"]),
  ],
};
pub const TYPES: Syn = Syn {
  name: "types",
  how: "ts",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:type A=$T", "0:type A=-1|$T", "0:type A=|$T", "0:type A=B<<T>()=>$T>", "0:let a:$T", "0:function f(a:$T){}", "0:a as $T", "0:f<$T>()", "0:type A<T extends $T=$T>=1", "0:function f():$R{}"]),
    ("R", &["0:$T", "a is $T", "asserts a", "asserts a is $T", "this is $T", "asserts", "is"]),
    (
      "T",
      &[
        "A", "any", "string", "'s'", "1", "1n", "true", "null", "undefined", "void", "never", "unique symbol", "this", "object", "bigint", 
        "($T)", "$T[]", "$T[$T]", "$T|$T", "$T&$T", "[]", "[$T]", "[$T?]", "[...$T]", "[a:$T]", "[a?:$T]", "[...a:$T]", "[$T,$T]", "readonly A[]", "readonly[$T]",
        "{}", "{a:$T}", "{a?:$T;b:$T}", "{readonly a:$T}", "{[k:string]:$T}", "{[K in $T]:$T}", "{readonly[K in $T]?:$T}", "{-readonly[K in $T]-?:$T}", "{+readonly [K in $T]+?:$T}", "{[K in $T as $T]:$T}", "{m():$T}", "{():$T}", "{new():$T}", "{get a():$T}", "{set a(v:$T)}", "{m?(a:$T):$T}", "{readonly:$T}", "{get:$T}", "{a,b}", "{a;b}", "{'a':$T}", "{1:$T}", "{[a.b]:$T}",
        "()=>$T", "(a:$T)=>$T", "(a?:$T)=>$T", "(...a:$T)=>$T", "new()=>$T", "<T>(a:T)=>$T", "<const T extends $T>()=>$T", "(a:$T)=>a is $T", "(this:$T)=>$T",
        "A<$T>", "A.B<$T>", "A<$T,$T>", "typeof a", "typeof a.b", "typeof import('m')", "keyof $T", "import('m')", "import('m').A<$T>", "$T extends $T?$T:$T", "$T extends infer U?$T:$T", "$T extends infer U extends $T?$T:$T", "($T extends (infer U extends $T)?$T:$T)", "`a${$T}b`", "typeof this.a",
      ],
    ),
  ],
};
pub const TSSTMT: Syn = Syn {
  name: "ts-declarations",
  how: "ts",
  start: "P",
  cap: 5,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$S", "0:$S\n$S"]),
    ("T", &["0:A", "A<B>", "A[]", "()=>A", "{a:A}", "A|B"]),
    (
      "S",
      &[
        "interface A{$J}", "interface A extends B,C<$T>{$J}", "interface A<T>{$J}", "type A=$T;", "enum A{$Z}", "const enum A{$Z}", "declare enum A{$Z}", "namespace A{$S}", "namespace A.B{$S}", "declare module 'm'{$S}", "declare global{$S}", "module A{$S}", "declare namespace A{$S}",
        "declare class A{$W}", "abstract class A{$M}", "class A<T>extends B<$T>implements C,D<$T>{$M}", "class A{$M}", "export interface A{$J}", "export type A=$T;", "export declare class A{$W}", "export enum A{$Z}", "export abstract class A{$M}", "export namespace A{$S}",
        "import type A from'm';", "import type{A}from'm';", "import{type A,type B as C}from'm';", "import type*as A from'm';", "export type{A};", "export type{A}from'm';", "export{type A};", "export type*from'm';", "export type*as A from'm';", "import A=B.C;", "import A=require('m');", "export import A=B;", "import type A=require('m');", "export=a;", 
        "function f(a:$T):$T;function f(a?:$T){}", "function f<T extends $T=$T>(this:$T,a?:$T,...b:$T){}", "let a!:$T;", "let a:$T=$E;", "$E;", "@$D class A{$M}", "@$D export class A{}", "try{}catch(e:any){}", "async function f<T>(a:$T){}", "abstract\nclass A{}", "declare\nvar a", "namespace\nA{}", "interface\nA{}", "using a=$E;", "await using a=$E;","import type,{A}from'm';","import type from'm';","import{type}from'm';","import{type as}from'm';","import{type as as}from'm';","import{type as as as}from'm';",
      ],
    ),
    ("J", &["0:", "a:$T;", "a?:$T", "m(a:$T):$T;", "[k:string]:$T;", "new(a:$T):$T", "(a:$T):$T", "readonly a:$T", "get a():$T;", "set a(v:$T);", "a:$T,b:$T", "a;b", "<T>():$T", "readonly [k:string]:$T","a\nb","get:$T","async():$T"]),
    ("Z", &["0:", "A", "A=1", "A,B", "A=1,B=A", "'a'=1", "A=`x`", "A=$E,", "['a']"]),
    (
      "M",
      &[
        "0:", "a:$T;", "a?:$T=$E;", "a!:$T;", "private a;", "protected readonly a:$T;", "public static a=$E;", "override m(){}", "abstract m():$T;", "abstract a:$T;", "m(a:$T):$T;m(a?:$T){}", "constructor(private a:$T,readonly b?){}", "[k:string]:$T;", "static[k:string]:$T;", "get a():$T{}", "set a(v:$T){}", "@$D a;", "@$D m(){}", "m(@$D a){}", "m<T>(this:$T){}", "static{}", "m?():$T", "async*m<T>():$T{}", "readonly a;", "accessor a:$T;", "static accessor a=$E;", "private get a(){}", "readonly", "abstract", "public", "private constructor();", "override readonly a=$E;", "static abstract", "private static async m(){}",
      ],
    ),
    ("W", &["0:", "a:$T;", "readonly a;", "private a;", "static b:$T;", "protected readonly a:$T;"]),
    ("D", &["a", "a()", "a.b", "(a)", "a.b()", "a?.b", "(()=>a)()"]),
    ("E", &["0:a", "a as $T", "(<$T>a)", "a!", "a satisfies $T", "a!.b", "a<$T>()", "new A<$T>()", "a<$T>", "(a as $T)=1", "a as const", "(a:$T)=>a", "<T>(a:$T)=>a", "<T,>(a)=>a", "async<T>(a:$T):$T=>a", "(a?:$T)=>a", "a?.b!", "a?.b!.c", "(a as $T).b", "a<$T>`x`", "a?.<$T>()", "function(this:$T){}", "class<T>{}", "a as $T+1", "a<b>c", "<T extends $T>()=>a", "a?(b):c=>d", "a?(b):$T=>c:d", "(a)!", "-a!", "a!++", "(<$T>a)()", "a as $T as $T", "f(a as $T)", "typeof a as $T", "a<b>-c", "a<b>>c", "a=b as $T","abstract","type","declare"]),
  ],
};
pub const JSX: Syn = Syn {
  name: "jsx",
  how: "tsx",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:x=$X", "0:x=a<$X", "0:($X)", "0:f($X,$X)"]),
    ("N", &["0:a", "A", "a.b", "a:b", "a-b", "this", "A.b.c", "this.a"]),
    (
      "X",
      &[
        "<$N/>", "<$N></$N>", "<a>$C</a>", "<a>$C$C</a>", "<a $Y/>", "<a $Y $Y/>", "<></>", "<>$C</>", "<a $Y>$C</a>", "<A $Y>$C</A>",
      ],
    ),
    ("Y", &["a", "a='s'", "a=\"s\"", "a={$E}", "{...$E}", "a-b='s'", "a:b={$E}", "a=<b/>", "a='&amp;'", "a='x\ny'", "a=\"'\"", "a='\"'", "a={'s'}", "a={`s`}", "a='\\n'"]),
    ("C", &["t", " t ", "{$E}", "{}", "{...$E}", "$X", "\n", " ", "t\n  u", "&amp;", "&lt;a", "{/*c*/}", "{' '}", "\n  t\n", "&nbsp;", "}", ">", "'", "\u{a0}", "&#123;", "a{$E}b"]),
    ("E", &["0:a", "a,b", "'s'", "$X", "a?$X:b", "()=>$X", "{a:$X}", "a&&$X", "a as b","`t`"]),
  ],
};
pub const LITERALS: Syn = Syn {
  name: "literal-tokens",
  how: "script",
  start: "P",
  cap: 7,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:x='$C'", "0:x=\"$C\"", "0:x=`$C`", "0:x=a`$C`", "0:x=/$R/", "0:x=/$R/g", "0:x=$N", "0:$I=1", "0:'$C'", "0:x={'$C':1}", "0:x=`$C${a}$C`", "0:x={$N:1}", "0:x=$N.a"]),
    ("C", &["0:", "${D}$C"]),
    ("D", &["a", "\\n", "\\0", "\\1", "\\8", "\\x41", "\\x4", "\\u0041", "\\u{41}", "\\u{110000}", "\\u{1F600}", "\\ud83d", "\\ude00", "\\u{d83d}", "\\\n", "\\'", "'", "\\\"", "\"", "\\`", "`", "\\\\", "\u{2028}", "\\\u{2029}", "\n", "\r\n", "$", "{", "}", "\\$", "0", "\\00", "\\07", "\\a", "é", "😀", "\\\r\n", "</script", "\\u", "\\v", "\\x00","\t","\u{0}","-->","<!--"]),
    ("R", &["0:", "${G}$R"]),
    ("G", &["a", "[/]", "\\/", "(a)", "[^\\]]", "\\d", "*", "(?:b)", "(?<n>a)", "\\k<n>", "{1}", "[", "]", ")", "\\u{1}", "|", "^", "[a-", "\n", "😀","(?=a)","\\"]),
    ("N", &["0:${M}", "0:${M}$N"]),
    ("M", &["0", "1", "7", "8", "9", ".", "e", "e+", "E-", "x", "X", "o", "b", "B", "_", "n", "a", "f"]),
    ("I", &["0:${J}", "0:${J}$I"]),
    ("J", &["a", "$", "_", "1", "\\u0061", "\\u{61}", "é", "\u{200c}", "\\u{1d7d8}", "𝒜", "\\u002d", "if", "\u{2118}", "\u{30}", "\u{b7}"]),
  ],
};
pub const ASI: Syn = Syn {
  name: "line-terminators",
  how: "script",
  start: "P",
  cap: 5,
  quick: 500_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:$T", "0:$T$N$T", "0:$T$N$T$N$T", "0:$T$N$T$N$T$N$T", "0:$T$N$T$N$T$N$T$N$T"]),
    ("N", &["0: ", "0:\n", "0:/*x*/", "0:/*\n*/", "0://c\n"]),
    ("T", &["a", "1", "++", "--", "+", "-", "/", "/r/", "(", ")", "[", "]", "{", "}", "`t`", "return", "throw", "break", "continue", "yield", "async", "function", "f(){}", "=>", "=", "let", "var", "if(a)", "else", "do", "while(a)", ";", "?.", ".", "of", "in", "await", "static", "get", "new", "<!--", "-->", "class", "x=>", "typeof", "for(;;)", ":", "?", ",", "import", "..."]),
  ],
};
pub const ASI3: Syn = Syn {
  name: "line-terminators-3",
  how: "script",
  start: "P",
  cap: 4,
  quick: 500_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:$T$N$T$N$T"]),
    ("N", &["0: ", "0:\n"]),
    ("T", &["a", "1", "++", "--", "+", "-", "/", "/r/", "(", ")", "[", "]", "{", "}", "`t`", "return", "throw", "break", "continue", "yield", "async", "function", "f(){}", "=>", "=", "let", "var", "if(a)", "else", "do", "while(a)", ";", "?.", ".", "of", "in", "await", "static", "get", "new", "<!--", "-->", "class", "x=>", "typeof", "for(;;)", ":", "?", ",", "import", "..."]),
  ],
};
/// Statement and arrow-body heads: expressions whose leftmost token could start something else.
pub const HEADS: Syn = Syn {
  name: "expression-heads",
  how: "module",
  start: "P",
  cap: 5,
  quick: 400_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:$E", "0:x=()=>$E", "0:export default $E", "0:for($E;;);", "0:async()=>$E", "0:if(a)$E;else b", "0:class A extends($E){}", "0:new($E)"]),
    ("H", &["0:({})", "0:(function(){})", "0:(class{})", "0:(async function(){})", "0:(()=>{})", "0:(async()=>{})", "0:[]", "0:a", "0:async", "0:/r/", "0:`t`", "0:(new a)", "0:(function*(){})", "0:import.meta", "0:import('m')", "0:1", "0:(a,b)", "0:({a}=b)", "0:(a=b)", "0:(a?b:c)"]),
    ("E", &["0:$H", "$E.a", "$E[a]", "$E()", "$E`t`", "$E.a++", "$E+a", "$E?a:b", "$E,a", "$E?.a", "$E.a=b", "$E in a", "$E??a", "$E**a", "$E.a--", "-$E", "!$E", "a+$E", "new $E", "typeof $E", "$E instanceof a"]),
  ],
};
pub const TSHEADS: Syn = Syn {
  name: "ts-expression-heads",
  how: "ts",
  start: "P",
  cap: 4,
  quick: 200_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:$E", "0:x=()=>$E", "0:export default $E", "0:for($E;;);", "0:if(a)$E;else b", "0:new($E)"]),
    ("H", &["0:({})", "0:(function(){})", "0:(class{})", "0:a", "0:async", "0:(<A>a)", "0:type", "0:abstract", "0:namespace", "0:(new a)", "0:(a as A)", "0:(()=>{})"]),
    ("I", &["0:a", "0:async", "0:type", "0:a.b", "0:a[b]", "0:a()", "0:this", "0:a`t`", "0:a!"]),
    ("U", &["0:$H", "$U!", "$I<A>()", "$I<A>`t`", "$U.a", "$U!.a++", "$U`t`", "<A>$U", "-$U", "new $U"]),
    ("E", &["0:$U", "$E as A", "$E satisfies A", "$U+a", "$U?a:b", "($U as A)=b", "$U!=b", "$U as A[]", "$E as any"]),
  ],
};
pub const LINES: Syn = Syn {
  name: "line-terminators-in-bodies",
  how: "script",
  start: "P",
  cap: 6,
  quick: 700_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:a:for(;;){$L}", "0:async function*f(){$L}", "0:function f(){$L}", "0:class A{$K}", "0:x={$K}", "0:switch(a){case b:$L}"]),
    ("N", &["0: ", "0:\n"]),
    ("L", &["0:$T$N$T", "$T$N$T$N$T"]),
    ("K", &["0:$C$N$C", "$C$N$C$N$C"]),
    ("T", &["0:a", "0:break", "0:continue", "0:return", "0:throw", "0:yield", "0:await", "0:b", "0:*", "0:(a)", "0:[a]", "0:{a}", "0:=a", "0:++", "0:/a/g", "0:`t`", "0:async", "0:function f(){}", "0:let", "0:var b", "0:=>a", "0:a=>a", "0:class B{}", "0:.b", "0:in", "0:of", "0:debugger", "0:default:"]),
    ("C", &["0:a", "0:get", "0:set", "0:static", "0:async", "0:*", "0:(){}", "0:b(v){}", "0:=a", "0:[a]", "0:['b']", "0:#p", "0:1", "0:in", "0:constructor(){}", "0:{}", "0:,", "0::a", "0:...a", "0:accessor"]),
  ],
};
pub const TSLINES: Syn = Syn {
  name: "ts-line-terminators",
  how: "ts",
  start: "P",
  cap: 6,
  quick: 500_000,
  thorough: 3_000_000,
  rules: &[
    ("P", &["0:interface I{$J}", "0:x=a as{$J}", "0:$L", "0:type A=$Y"]),
    ("N", &["0: ", "0:\n"]),
    ("J", &["0:$C$N$C", "$C$N$C$N$C"]),
    ("L", &["0:$T$N$T", "$T$N$T$N$T"]),
    ("Y", &["0:$Z$N$Z", "$Z$N$Z$N$Z"]),
    ("C", &["0:a", "0:a:A", "0:a?:A", "0:['b']:B", "0:[k:string]:B", "0:[s]", "0:()", "0:():A", "0:<T>()", "0:new", "0:get a()", "0:readonly a:A", "0:readonly\na", "0:m()", "0:,", "0:?", "0:1:A", "0:A[]", "0:|B", "0::typeof a", "0:(v)"]),
    ("T", &["0:a", "0:type", "0:A=B", "0:interface", "0:I{}", "0:namespace", "0:N{}", "0:module", "0:declare class C{}", "0:abstract class C{}", "0:class C{}", "0:enum", "0:E{}", "0:as", "0:B", "0:(a)", "0:let a:A", "0:=>a", "0:satisfies", "0:[a]", "0:=b", "0:'m'{}", "0:import", "0:export", "0:function f()", "0:{}"]),
    ("Z", &["0:A", "0:[]", "0:[B]", "0:|B", "0:extends C?D:E", "0:keyof", "0:<T>", "0:.b", "0:=>A", "0:()", "0:{}", "0:infer", "0:unique", "0:symbol", "0:(a)", "0:`t`", "0:abstract", "0:new"]),
  ],
};
pub const ALL: &[&Syn] = &[&BINARY, &BINARY2, &MEMBER, &STMTS, &FUNCS, &CLASSES, &MODULES, &TYPES, &TSSTMT, &JSX, &LITERALS, &ASI, &ASI3, &HEADS, &TSHEADS, &LINES, &TSLINES];

/// Single programs whose constructs are kept out of the alphabets above, because
/// each is a recorded finding there.
pub const EXTRA: &[(&str, &str)] = &[
  ("script", "L:let\na"),
  ("script", "for(let in a);"),
  ("script", "for(;;)let\na"),
  ("script", "function f(){;'use strict';x=010}"),
  ("script", ";'use strict';with(a)b"),
  ("tsx", "x=<A<B>/>"),
  ("ts", "f<A<<T>()=>T>[]>()"),
  ("ts", "x=a as abstract new()=>A"),
  ("ts", "function f():asserts is 1{}"),
  ("ts", "f<typeof a<void>>()"),
  ("ts", "declare var a:A;"),
  ("ts", "declare function f():A;"),
  ("ts", "export as namespace A;"),
  ("ts", "export default interface A{}"),
  ("ts", "export default abstract class A{}"),
  ("ts", "class A{declare a:A;}"),
  ("ts", "let a:readonly keyof 1[];"),
  ("ts", "let a:keyof readonly A[];"),
  ("ts", "x=a as ([a]:1)=>1"),
  ("ts", "x=a as ({a}:1)=>1"),
  ("ts", "type\nA=A<B>\na;"),
  ("ts", "a<A>?.()"),
  ("ts", "x=()=>1,b"),
  ("ts", "f(()=>1,b)"),
  ("ts", "(()=>1),b"),
  ("ts", "({})<A>()"),
];

/// The same for programs emitted from their HIR.
pub const EXTRA_HIR: &[(&str, &str)] = &[
  ("script", "(a?.b)()"),
  ("script", "(a?.b).c"),
  ("script", "(a?.b)`x`"),
  ("script", "('use strict');"),
  ("script", "x='\\ud83d'"),
  ("script", "x=`\\ud83d`"),
  ("script", "x=a`\\x41`"),
  ("script", "x=a`\\8`"),
];
