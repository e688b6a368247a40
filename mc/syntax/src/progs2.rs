//! More program families for the behaviour-preservation checks.
use crate::progs::Family;

pub const PROPS: Family = Family {
  name: "properties",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 5,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:var o={a:1,'b-c':2,0:3,'01':4,__proto__:{p:5}};return $E"]),
    (
      "E",
      &[
        "o", "1", "this===o", "null", "'a'", "{$M}", "({$M})", "({$M,$M})", "[$E,$E]", "[...$E]", "[,$E]", "$E.a", "$E.p", "$E['a']", "$E['b-c']", "$E[0]", "$E['0']", "$E['01']",
        "$E['']", "$E['if']", "$E.if", "$E['\\u0061']", "$E['a\\n']", "$E?.a", "$E?.['a']", "$E?.[0]", "$E[$E]", "(delete $E['a'])", "('a' in $E)", "log($E)", "($E.a=$E)", "($E['a']+=$E)", "$E['a']++", "Object.getPrototypeOf($E)",
        "Object.keys($E)", "$E.a()", "$E['a']()", "$E?.a?.()", "`a${$E}b`", "String.raw`\\n${$E}`", "f`a\\n${$E}`", "1..toString()", "1['toString']()", "(x=>x)($E)",
      ],
    ),
    (
      "M",
      &[
        "a:$E", "'a':$E", "'b-c':$E", "['a']:$E", "[$E]:$E", "0:$E", "'0':$E", "1e3:$E", "'1000':$E", ".5:$E", "'01':$E", "'__proto__':$E", "__proto__:$E", "['__proto__']:$E", "o", "__proto__(){}", "a(){return this}", "'a'(){return $E}", "get a(){return $E}",
        "set a(v){log(v)}", "get 'b'(){return 1}", "...$E", "async a(){}", "*a(){yield $E}", "['a'](){return $E}", "get:$E", "set:$E", "async:$E", "'':$E", "'constructor':$E", "1n:$E",
      ],
    ),
  ],
};

pub const CLASSES: Family = Family {
  name: "classes",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 5,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:class A{constructor(x){log('A',x,new.target===A);this.q=x}m(){return 1}static s(){return 2}} $B"]),
    (
      "B",
      &[
        "0:class C{$M}var c=new C(1);return [c,c.m,c.n&&c.n(),C.s]", "0:class C extends A{$M}var c=new C(1);return [c,c.m(),C.s(),c.n]", "0:var c=class{$M$M};return [new c(2),c.s,c.m,c.name.length]",
        "0:var C=class D{$M$M};return [new C(3),C.s,typeof D]", "0:class C extends A{$M$M}return [new C(4),C.s(),C.m]",
      ],
    ),
    (
      "M",
      &[
        "m(){return $E}", "static s(){return $E}", "static s=$E;", "m=$E;", "n=$E;", "'n'=$E;", "['n']=$E;", "#p=$E;m(){return this.#p}", "#p(){return $E}m(){return this.#p()}", "get m(){return $E}", "static{log($E)}", "static{this.s=$E}", "constructor(a){super(a);this.x=$E}",
        "constructor(a){this.x=$E}", "set m(v){log(v)}", "m;", "static m;", "*n(){yield $E}", "static get s(){return $E}", "get #p(){return $E}n(){return this.#p}", "static #p=$E;static s(){return C.#p}", "#p;n(){return #p in this}", "static async s(){}", "'constructor'(){log(5)}", "static constructor(){return 9}", "get=1;", "static;", "async;n=$E;","accessor=$E;",
      ],
    ),
    ("E", &["0:1", "0:log(2)", "this.q", "super.m&&3", "super.m()", "()=>this", "new.target", "typeof C", "arguments.length", "this===undefined", "(()=>super.m)()&&4", "class{m(){}}", "$E+$E", "a=>a"]),
  ],
};

pub const FUNCTIONS: Family = Family {
  name: "functions",
  kind: "fn",
  looping: false,
  tick: false,
  start: "Q",
  cap: 6,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("Q", &["0:var o={m:1};return ($F)$A"]),
    ("A", &["0:()", "0:(1)", "0:(1,2)", "0:.call(o,1,undefined,3)", "0:(...[1,2])", "0:`t`", "0:?.(1)"]),
    (
      "F",
      &[
        "function($P){$S}", "function n($P){$S}", "($P)=>$E", "($P)=>{$S}", "function n($P){'use strict';$S}", "x=>$E", "(x,y)=>($F)(y)", "function($P){return ($F)(3)}", "(x=>x)&&(($P)=>({x:$E}))","async function($P){$S}",
      ],
    ),
    ("P", &["0:x", "0:x,y", "0:", "x=5,y=6", "x,...y", "{length:x}={length:7},y", "[x,y]=[8]", "x,y=x", "x=y,y", "x,x", "x,y=()=>x", "x=arguments.length,y", "{x=1}={},{y=x}={}"]),
    ("E", &["0:x", "0:y", "arguments.length", "arguments[0]", "this===o", "typeof this", "typeof n", "new.target", "[x,y]", "(x,y)", "$E?$E:$E", "x=$E", "y=$E", "($E,$E)", "n.length", "{}", "({x,y})", "(()=>$E)()", "(function(){return $E})()", "log($E)"]),
    ("S", &["return $E", "$E;return x", "if($E)return 1;return $E", "var x;return $E", "var x=$E;return x", "var y=$E;return x", "let z=$E;return z", "arguments[0]=9;return $E", "x=$E;return arguments[0]", "function x(){}return typeof x", "return $E;function y(){}", "return\n$E", "var arguments;return $E", "{function y(){}}return typeof y"]),
  ],
};

pub const DECLS: Family = Family {
  name: "declarations-dead-code",
  kind: "fn",
  looping: true,
  tick: false,
  start: "P",
  cap: 9,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:var o={p:1};let x=20,y=21;return(()=>{$S$S return[x,y]})()", "0:var o={p:1},x=20,y=21;{$S$S$S}return[x,y]", "0:$S$S$S log(typeof x,typeof y)"]),
    ("N", &["0:x", "0:y"]),
    ("E", &["0:1", "0:$N", "log(2)", "f($N)", "typeof $N", "g()", "$N=3", "$N++", "()=>$N", "function(){return $N}", "$N&&log(4)", "(log(5),$N)", "$N===null||$N===undefined","void $N","o.p","[$N]=[6]","new f($N)","{$N}={$N:7}","-$N","`${$N}`","/a/g"]),
    (
      "S",
      &[
        "var $N;", "var $N=$E;", "let $N=$E;", "const $N=$E;", "$E;", "var x=$E,y=$E;", "let x=$E,y=$E;", "function $N(){return $E}", "class $N{}", "{let $N=$E;log($N)}", "{var $N=$E}", "{function $N(){}}", "if(0)$S", "if(1){$S}else $S", "if($E)$S", "if($E)$S else $S",
        "return;", "throw $E;", "for(var $N=0;$N<2;$N++)$S", "while($E)break;", "try{$S}catch(e){log(8)}", "L:{$S break L;$S}", "switch($E){case 1:$S}", ";", "do $S while(0);", "'use strict';", "var {$N}={$N:$E};", "var [$N=$E]=[];", "for(var $N in{k:1});", "for(let $N of[9])log($N);", "debugger;","class A{static x=$E}","try{$S}finally{$S}","{}","if($E);else $S","if($E)return $E;","if($E)return $E;else return $E;"
      ],
    ),
  ],
};

pub const DYNAMIC: Family = Family {
  name: "dynamic-scope",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:var long=1,a=2;return $E", "0:var long=1,a=2;$S return [long,a]"]),
    ("E", &["0:long", "0:a", "eval('long')", "(0,eval)('typeof long')", "eval('var a=3')", "typeof a", "(function(b){return $E})(4)", "(function(long){return $E})(5)", "(()=>$E)()", "eval('b')", "b", "(function(){var eval=f;return $E})()", "(function(){'use strict';return $E})()", "[$E,$E]", "new Function('return typeof long')()", "eval?.('typeof long')", "eval(`long`)","undefined","(function(undefined){return $E})(6)","(function(){var undefined=7;return $E})()","arguments.length"]),
    ("S", &["with({long:8})$T", "with({a:9}){$T $T}", "{let long=10;$T}", "(function(q){with(q){$T}})({q:11,a:12});", "try{throw 13}catch(long){$T}","var b=14;$T","function h(long){$T}h(15);","for(let long of[16]){$T}","with(f({})){var long=17}"]),
    ("T", &["0:log($E);", "long=$E;", "$S", "var a=$E;","log(typeof q);","function a(){}"]),
  ],
};

pub const LAZY: Family = Family {
  name: "generators-async",
  kind: "async",
  looping: false,
  tick: true,
  start: "P",
  cap: 6,
  quick: 40_000,
  thorough: 200_000,
  rules: &[
    ("P", &["0:$S return 1", "0:$S$S return await $E"]),
    ("E", &["0:1", "await $E", "log($E)", "f(Promise.resolve(2))", "(async()=>($E))()", "(async x=>{$S return x})(3)", "[...(function*(){$G})()]", "await Promise.all([$E,$E])", "(async function*(){yield $E})().next()", "g()", "$E,$E", "($E)?.a"]),
    ("G", &["yield 1;", "yield $E;", "yield*[4,5];", "var r=yield;log(r);", "return yield 6;", "try{yield 7}finally{log(8)}", "$G$G", "yield\n9;","log(yield);","yield[yield]"]),
    ("S", &["0:log(9);", "$E;", "await $E;", "for await(const x of[1,$E])log(x);", "try{$S}catch(e){log('c')}", "let z=await $E;log(z);", "for(const x of(function*(){$G})()){log(x);}", "if(await $E)$S else $S", "var it=(function*(){$G})();log(it.next(1));log(it.next(2));log(it.return(3));", "throw await $E;"]),
  ],
};

pub const MODULE: Family = Family {
  name: "modules",
  kind: "module",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 40_000,
  thorough: 200_000,
  rules: &[
    ("P", &["0:$S$S$S", "0:$S$S", "0:$S$S$S$S"]),
    ("N", &["0:a", "0:b"]),
    ("E", &["0:1", "0:$N", "log($N)", "()=>$N", "(p=>[p,$N])(4)", "(function(p,q){let r=$E;return[p,q,r,$N]})(5,6)", "$N=2", "typeof $N", "$N++", "import.meta&&3", "this", "f"]),
    ("S", &["var $N=$E;", "let $N=$E;", "export var $N=$E;", "export let $N=$E;", "export const $N=$E;", "export function $N(){return $E}", "export class $N{}", "function $N(){return $E}", "export{$N};", "export{$N as z};", "export{a as b};", "export{a as default};", "export default $E;", "export default function(){return $E}", "export default function $N(){return $E}", "export default class $N{m(){return $E}}", "export default class{}", "export{$N as 'a-b'};", "log($E);", "{let $N=$E;log($N)}", "$N=$E;", "export var {$N}={$N:$E};", "export let [$N]=[$E];", "export{};","export default(a,b);","export default [$E];", "(()=>{$N=$E})();", "export async function $N(){}", "export default async function(){}"]),
  ],
};

pub const SCRIPT: Family = Family {
  name: "scripts",
  kind: "script",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 40_000,
  thorough: 200_000,
  rules: &[
    ("P", &["0:$S$S$S", "0:$S$S", "0:'use strict';$S$S"]),
    ("N", &["0:a", "0:b"]),
    ("E", &["0:1", "0:$N", "log($N)", "this.$N", "typeof $N", "globalThis.$N", "delete this.$N", "()=>$N", "(p=>[p,$N])(4)", "(function(p,q){let r=$E;return[p,q,r,$N]})(5,6)", "$N=2", "'a' in this", "function $N(){}","undefined","(function(a){return a})($E)"]),
    ("S", &["var $N=$E;", "let $N=$E;", "const $N=$E;", "function $N(){return $E}", "class $N{}", "log($E);", "$N=$E;", "this.$N=$E;", "{let $N=$E;log($N)}", "{function $N(){}}", "if(0)var $N;", "log(Object.keys(this).join());", "if($E){var b=$E}", "(function(){var a=$E;log(a)})();", "{var $N=$E}", "try{log($N)}catch{log(3)}", "undefined=$E;","for(var $N of[$E]);"]),
  ],
};

/// Declarations nobody reads: what is dropped must have had no effect.
pub const UNUSED: Family = Family {
  name: "unused-values",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:let a=$V;return 1", "0:$V;return 1", "0:class A{$C}return 1", "0:if($V);return 1"]),
    (
      "V",
      &[
        "0:1", "0:1n", "0:0n", "0:'s'", "0:g()", "0:null", "0:(function(){log(9)})", "0:undef", "0:Symbol()",
        "{valueOf(){log(6);return 7}}", "class{$C}", "class extends $V{}", "new class{constructor(){log(8)}}", "`${$V}`", "[...$V]", "[$V]", "{x:$V}", "{[$V]:1}", "$V.p", "$V?.p", "$V()", "new $V", "$V`t`", "/x/", "/(/", "this", "new.target", "arguments",
        "+$V", "-$V", "~$V", "!$V", "typeof $V", "void $V", "typeof undef", "delete $V.x", "$V+$V", "$V-$V", "$V*$V", "$V/$V", "$V%$V", "$V**$V", "$V<<$V", "$V>>$V", "$V>>>$V", "$V&$V", "$V|$V", "$V^$V",
        "$V<$V", "$V>=$V", "$V==$V", "$V!==$V", "$V in $V", "$V instanceof $V", "$V&&$V", "$V||$V", "$V??$V", "($V,$V)", "$V?$V:$V", "(f=$V)", "import.meta", "function(){log(9)}", "async()=>$V", "function*(){log(9)}",
      ],
    ),
    ("C", &["0:m(){log(1)}", "static x=$V;", "static{log(2)}", "[$V](){}", "x=$V;", "static[$V]=1;", "get x(){return log(3)}", "static #p=$V;", "#p=$V;", "constructor(){log(4)}", "static m(){log(1)}", "@g x;"]),
  ],
};
/// Destructuring whose targets nobody reads.
pub const DESTRUCT: Family = Family {
  name: "unused-destructuring",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:let $I;return 1", "0:const f=()=>{let $I;return 1};return f()","0:var $I;return typeof a", "0:const $I;return()=>b", "0:let $I;return eval('typeof a')", "0:let b=1;{let $I}return b"]),
    ("I", &["0:{a}=$O", "{a,b}=$O", "{x:a}=$O", "{a=$V}=$O", "{['a']:b}=$O", "{...a}=$O", "[a]=$V", "[a=$V]=[]", "{}=$V", "{a:{b}}={a:$O}"]),
    ("O", &["0:{$M}", "0:{$M,$M}", "0:null"]),
    ("M", &["0:a:$V", "0:get a(){log(1);return 2}", "0:set a(v){log(v)}", "0:a(){}", "0:b:1", "0:get b(){throw 3}", "0:__proto__:{get a(){log(4)}}", "0:'__proto__':{get a(){log(4)}}", "0:['a']:$V", "0:[log('k')]:1", "0:...{get a(){log(5)}}", "0:...$V", "0:x:$V"]),
    ("V", &["0:1", "0:g()", "0:null", "0:undefined", "log(9)", "$O"]),
  ],
};

/// Short names that stay (exports, globals) next to names that are shortened.
const NAME_E: (&str, &[&str]) = (
  "E",
  &[
    "0:1", "0:$N", "(p=>[p,$E])(4)", "(function(p,q){let r=$E;return[p,q,r,$N]})(5,6)", "(p=>{for(let r of[p])return[p,r,$E]})(7)", "(class p{static m(q){return[q,typeof p,$E]}}).m(8)",
    "(()=>{try{throw 9}catch(p){return[p,$E]}})()", "(function p(q){return q?[q,typeof p,p(0),$E]:$N})(1)", "(function(){var p=$E;{let q=2;var r=3;{let p=$N;return[p,q,r,$N]}}})()", "(p=>()=>(q=>[p,q,$E]))(1)()(2)", "typeof $N",
    "(({p,q:[r]},...s)=>[p,r,s,$E])({p:1,q:[2]},3)", "(function(){p:{let q=$E;break p}return $N})()", "(()=>{function p(){return $E}{function q(){return $N}}return[p(),q()]})()", "((p,q=()=>$E)=>{var p;return[p,q()]})(1)",
  ],
);
pub const MNAMES: Family = Family {
  name: "module-names",
  kind: "module",
  looping: false,
  tick: false,
  start: "P",
  cap: 5,
  quick: 150_000,
  thorough: 400_000,
  rules: &[
    ("P", &["0:$S", "0:$S log($E);", "$S$S log($N);"]),
    ("N", &["0:a", "0:b"]),
    NAME_E,
    ("S", &["0:let $N=$E;", "0:export let $N=$E;", "0:log($E);", "0:export function $N(p){return $E}", "0:export class $N{static p=$E}", "0:export{$N};", "0:export{$N as c};", "0:export default function $N(p){return $E}", "0:export const{p:$N}={p:$E};"]),
  ],
};
pub const SNAMES: Family = Family {
  name: "script-names",
  kind: "script",
  looping: false,
  tick: false,
  start: "P",
  cap: 5,
  quick: 150_000,
  thorough: 400_000,
  rules: &[
    ("P", &["0:$S", "0:$S log($E);", "$S$S log($N);"]),
    ("N", &["0:a", "0:b"]),
    NAME_E,
    ("S", &["0:let $N=$E;", "0:var $N=$E;", "0:log($E);", "0:function $N(p){return $E}", "0:class $N{static p=$E}", "0:$N=$E;", "0:{let p=$E;var $N=p}", "0:{function $N(p){return $E}}", "0:for(let p of[1]){let q=$E;log(p,q)}"]),
  ],
};
